"""Counters, best observed value and target flag against an executable model, after every call of random histories."""
import math, random
import gen
from common import fl, close

INF = float("inf")


def run(ctx):
    ctx.rule = ("one case = one history of 20-80 calls on 1-3 problems (evaluations at random, near-optimal, feasible, infeasible, non-finite points, constraint "
                "evaluations, recommendations, restarts, queries), the state read and compared with the model after every call; "
                "non-trivial = the best observed value changed at least twice")
    fast, asan = ctx.build("cut:fast", "cut:asan")
    cells = []
    rng = ctx.rng
    for s in gen.SUITES:
        for f in gen.functions(s):
            for rep in range(5 if ctx.quick else 30):
                d = rng.choice([x for x in gen.dims(s) if x <= (20 if "biobj" in s else 40)])
                cells.append((s, f, d, 1 if s == "toy" else rng.randint(1, 15), rep))

    def one(cell):
        s, f, d, i, rep = cell
        rng = random.Random("C09/%d/%r" % (ctx.seed, cell))
        bi, con = "biobj" in s, "constrained" in s
        head = [["suite", 0, s, "instances: %d" % i, "dimensions: %d" % d]]
        pre = head + [["getfdi", 0, 0, f, d, i], ["info", 0, "notype"], ["best", 0]] + ([] if bi else [["fopt", 0]])
        r = ctx.run(fast, pre)
        what = "%s f%d d%d i%d" % (s, f, d, i)
        if not ctx.legit(r, what, pre):
            return
        x0 = r.events[2].nums(8 + 2 * d, 8 + 3 * d)
        xo = r.events[3].nums(1) if r.events[3].f[0] == "1" else [0.0] * d
        fopt = None if bi else fl(r.events[4].f[0])
        noisy = s == "bbob-noisy"

        def pt():
            k = rng.random()
            if k < 0.3:
                return gen.point(rng, d)
            if k < 0.5:
                t = 10 ** rng.uniform(-9, 0.3)
                return [a + t * (b - a) for a, b in zip(xo, x0)]
            if k < 0.65:
                t = 10 ** rng.uniform(-8, 0)
                return [a + t * rng.gauss(0, 1) for a in xo]
            if k < 0.7:
                return list(xo)
            if k < 0.8:
                return list(x0)
            return [rng.uniform(-5, 5) for _ in range(d)]

        observe = rng.choice(["", "", "bbob-biobj" if bi else "bbob", "rw", "toy"])
        np = rng.randint(1, 3)
        cmds = list(head)
        cmds.append(["getfdi", 9, 0, f, d, i])           # the judge: constraints and (noise-free) values are asked here
        for p in range(np):
            cmds.append(["getfdi", p, 0, f, d, i])
            if observe and p == 0:
                o = "result_folder: R"
                cmds += [["observer", 0, observe, o], ["addobs", 0, 0]]
        asks = []
        for _ in range(rng.randint(20, 80)):
            p = rng.randrange(np)
            k = rng.random()
            x = pt()
            if k < 0.62:
                if k < 0.05:
                    x[rng.randrange(d)] = rng.choice([float("nan"), INF, -INF])
                elif con:
                    cmds.append(["cons", 9] + x)
                cmds.append(["evals", p] + x)
                asks.append((len(cmds) - 1, "eval", p, x))
            elif k < 0.75 and con:
                if k < 0.65:
                    x[rng.randrange(d)] = rng.choice([float("nan"), INF])
                cmds.append(["conss", p] + x)
                asks.append((len(cmds) - 1, "cons", p, x))
            elif k < 0.85 and observe in ("bbob", "bbob-biobj") and p == 0:
                if k < 0.8:
                    cmds += [["rec", 0] + x, ["state", 0]]
                else:
                    cmds += [["restart", 0, 0], ["state", 0]]
                asks.append((len(cmds) - 1, "none", 0, x))
            elif k < 0.9 and not observe:
                cmds += [["rec", p] + x, ["state", p]]
                asks.append((len(cmds) - 1, "none", p, x))
            else:
                if rng.random() < 0.5:
                    cmds.append(["info", p, "notype"])
                cmds.append(["state", p])
                asks.append((len(cmds) - 1, "none", p, x))
        r = ctx.run(asan if rep == 0 and d <= 10 else fast, cmds)
        if not ctx.legit(r, what + " observer " + repr(observe), cmds):
            return
        ne, nc, best = [0] * np, [0] * np, [INF] * np
        changes = 0
        for at, kind, p, x in asks:
            e = r.events[at]
            fin = all(math.isfinite(v) for v in x)
            if kind == "eval":
                st = e.f[e.f.index("|") + 1:]
                y = fl(e.f[0])
                if fin:
                    ne[p] += 1
                    feas = not con or all(v <= 0 for v in r.events[at - 1].nums())
                    if feas and y < best[p]:
                        best[p] = y
                        changes += 1
            elif kind == "cons":
                st = e.f[e.f.index("|") + 1:]
                if fin:
                    nc[p] += 1
            else:
                st = e.f
            bad = lambda key, msg: ctx.violation(key, "%s (observer %r), call %d (%s): %s" % (what, observe, at, kind, msg), {"script": cmds[:at + 1]})
            if int(st[0]) != ne[p]:
                return bad("function evaluations", "counter %s, evaluations made %d" % (st[0], ne[p]))
            if int(st[1]) != nc[p]:
                return bad("constraint evaluations", "counter %s, evaluations made %d" % (st[1], nc[p]))
            if not bi:
                b = fl(st[4])
                if b != best[p] and not (best[p] == INF and b > 1e300):
                    return bad("best observed value", "%r, the best value of a feasible point was %r" % (b, best[p]))
                hit = int(ne[p] > 0 and best[p] <= fopt + 1e-8)
                margin = abs(best[p] - fopt - 1e-8) if best[p] < INF else 1
                if int(st[2]) != hit and margin > 1e-13 * (1 + abs(fopt)):
                    return bad("target flag", "flag %s, but the best value %r, the optimum %r" % (st[2], best[p], fopt))
                ctx.bump(target_hits=hit)
            elif st[2] != "0":
                return bad("target flag", "a bi-objective problem reports its final target as hit")
        if changes >= 2 or bi:
            ctx.case(cell + (observe,), {"problem": what, "calls": len(asks), "final counters": [ne, nc], "best": best} if f % 9 == 4 else None)
        ctx.bump(states_compared=len(asks), evaluations_made=sum(ne), constraint_evaluations_made=sum(nc), **{"observer_" + (observe or "none"): 1})

    ctx.par(one, cells)
