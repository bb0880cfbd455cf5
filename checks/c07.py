"""Bi-objective problems against their two single-objective components (documented pair and instance tables)."""
import math, random, re
import gen
from biobj import PAIRS, INST, SCALE, cardinality, discretize
from common import fl, close


def outer_optimum(xopt):
    """the optimum of the discretised problem in outer coordinates"""
    d = len(xopt)
    out = list(xopt)
    for k in range(d):
        n = cardinality(k, d)
        if n:
            lo, up = -4 + 8 / (n + 1), 4 - 8 / (n + 1)
            ko = math.floor((n - 1) * (xopt[k] - lo) / (up - lo) + 1e-7 + 0.5)
            out[k] = float(min(max(ko, 0), n - 1))
    return out


def run(ctx):
    ctx.rule = ("one case = one bi-objective problem; name, bounds, nadir point and values at sampled points (incl. both optima) compared with its two documented "
                "components evaluated separately; non-trivial = at least two different values per objective")
    exe, = ctx.build("cut:fast")
    jobs = []
    rng0 = ctx.rng
    for s in gen.BIOBJ:
        for d in gen.dims(s):
            for f in gen.functions(s):
                n = 3 if d <= 20 else 1
                if ctx.quick and d >= 80 and rng0.random() > 0.15:
                    continue
                if not ctx.quick:
                    n *= 4
                ins = rng0.sample(range(1, 16), n)
                if d <= 5 and rng0.random() < (0.15 if ctx.quick else 0.5):
                    ins.append(rng0.randint(16, 60))
                jobs.append((s, d, f, ins))
    jobs.sort(key=lambda j: -j[1])

    def one(job):
        s, d, f, ins = job
        mix = "mixint" in s
        cont = "bbob-largescale" if d >= 50 else "bbob"
        rng = random.Random("C07/%d/%s/%d/%d" % (ctx.seed, s, d, f))
        head = [["suite", 0, s, "instances: " + ",".join(map(str, ins)), "dimensions: %d" % d]]
        pre = list(head)
        for i in ins:
            pre += [["getfdi", 0, 0, f, d, i], ["info", 0], ["pfree", 0]]
        r = ctx.run(exe, pre, timeout=300)
        if not ctx.legit(r, "%s f%d d%d" % (s, f, d), pre):
            return
        pairs, infos = {}, {}
        f1, f2 = PAIRS[f - 1]
        for k, i in enumerate(ins):
            info = r.events[2 + 3 * k]
            infos[i] = info
            what = "%s f%d d%d i%d" % (s, f, d, i)
            m = re.findall(r"_f0*(\d+)_i0*(\d+)_d0*(\d+)", info.f[1])
            if len(m) != 2:
                ctx.violation("name", "%s is named %r" % (what, info.f[1]), {"script": pre})
                return
            (g1, i1, d1), (g2, i2, d2) = [tuple(map(int, t)) for t in m]
            want = INST.get(i) or (2 * i + 1, max(i2, 2 * i + 2))
            if (g1, g2, i1, i2, d1, d2) != (f1, f2, want[0], want[1], d, d):
                ctx.violation("components", "%s consists of f%d i%d d%d and f%d i%d d%d, documented are f%d i%d and f%d i%d" % (
                    what, g1, i1, d1, g2, i2, d2, f1, want[0], f2, want[1]), {"script": pre})
                return
            pairs[i] = want
        allinst = sorted({j for p in pairs.values() for j in p})
        head.append(["suite", 1, cont, "instances: " + ",".join(map(str, allinst)), "dimensions: %d" % d])
        q = list(head)
        for i in ins:
            for c, cf in enumerate((f1, f2)):
                q += [["getfdi", 1, 1, cf, d, pairs[i][c]], ["best", 1], ["fopt", 1], ["pfree", 1]]
        r = ctx.run(exe, q, timeout=300)
        if not ctx.legit(r, "components of %s f%d d%d" % (s, f, d), q):
            return
        p = 2
        cmds, plan = list(head), []
        for i in ins:
            xos, fos = [], []
            for c in range(2):
                xos.append(r.events[p + 1].nums(1))
                fos.append(fl(r.events[p + 2].f[0]))
                p += 4
            outer = [outer_optimum(x) if mix else x for x in xos]
            pts = [outer[0], outer[1]] + [gen.point(rng, d) for _ in range(4)] + [[rng.uniform(-100, 100) for _ in range(d)]]
            pts.append([(a + b) / 2 for a, b in zip(*outer)])
            plan.append((i, len(cmds), pts, xos, fos))
            cmds += [["getfdi", 0, 0, f, d, i]] + [["eval", 0] + x for x in pts] + [["pfree", 0]]
            for c, cf in enumerate((f1, f2)):
                cmds += [["getfdi", 1, 1, cf, d, pairs[i][c]]] + [["eval", 1] + (discretize(x, xos[c]) if mix else x) for x in pts] + [["pfree", 1]]
        r = ctx.run(exe, cmds, timeout=300)
        if not ctx.legit(r, "%s f%d d%d" % (s, f, d), cmds):
            return
        for i, at, pts, xos, fos in plan:
            what = "%s f%d d%d i%d" % (s, f, d, i)
            n = len(pts)
            bad = lambda key, msg: ctx.violation(key, what + ": " + msg, {"script": head + cmds[at:at + 3 * n + 6]})
            sc = (SCALE[f1 - 1], SCALE[f2 - 1]) if mix else (1, 1)
            ys = [r.events[at + 1 + k].nums() for k in range(n)]
            single = [[fl(r.events[at + (n + 2) * (c + 1) + 1 + k].f[0]) * sc[c] for k in range(n)] for c in range(2)]
            for k in range(n):
                if len(ys[k]) != 2:
                    bad("number of objectives", "%s" % ys[k])
                    break
                for c in range(2):
                    if not close(ys[k][c], single[c][k], 1e-8, 1e-8):
                        bad("component value", "objective %d is %r at %s, its component gives %r" % (c + 1, ys[k][c], pts[k][:6], single[c][k]))
            info = infos[i]
            lo, up = info.nums(8, 8 + d), info.nums(8 + d, 8 + 2 * d)
            if not mix and (set(lo) != {-100.0} or set(up) != {100.0}):
                bad("bounds", "region of interest %s..%s, documented [-100,100]" % (lo[:4], up[:4]))
            x0 = info.nums(8 + 2 * d, 8 + 3 * d)
            if not all(l <= x <= u for l, x, u in zip(lo, x0, up)):
                bad("initial solution", "outside of the region of interest: %s" % x0[:6])
            nadir = info.nums(8 + 3 * d, 10 + 3 * d)
            wn = [single[0][1], single[1][0]]
            if not all(close(a, b, 1e-8, 1e-8) for a, b in zip(nadir, wn)):
                bad("nadir", "nadir %s, the values at the other component's optimum are %s" % (nadir, wn))
            ideal = [fos[0] * sc[0], fos[1] * sc[1]]
            if not all(a < b for a, b in zip(ideal, nadir)):
                bad("ideal does not dominate nadir", "%s %s" % (ideal, nadir))
            if not close(single[0][0], ideal[0], 1e-9, 1e-8) or not close(single[1][1], ideal[1], 1e-9, 1e-8):
                bad("ideal", "values at the optima %s, optimal values %s" % ((single[0][0], single[1][1]), ideal))
            dist = math.sqrt(sum((a - b) ** 2 for a, b in zip(xos[0], xos[1])))
            gap = math.sqrt(sum((a - b) ** 2 for a, b in zip(ideal, nadir)))
            if not mix and (dist < 1e-4 or gap < 1e-1):
                bad("objectives too close", "distance of the optima %g, of ideal and nadir %g" % (dist, gap))
            ctx.case((s, f, d, i), {"problem": what, "name": info.f[1], "nadir": nadir} if f in (3, 60) else None)
            ctx.bump(points=n)

    ctx.par(one, jobs)

    # instances outside of the table: the second component is the first following instance with which, in all selected dimensions, every pair of functions is apart enough
    def search(job):
        s, ds, ins = job
        K = 7
        need = sorted({2 * i + 1 + k for i in ins for k in range(K + 1)})
        head = [["suite", 0, s, "instances: " + ",".join(map(str, ins)), "dimensions: " + ",".join(map(str, ds))],
                ["suite", 1, "bbob", "instances: " + ",".join(map(str, need)), "dimensions: " + ",".join(map(str, ds))]]
        cells = [(d, g, j) for d in ds for g in range(1, 25) for j in need]
        c = list(head)
        for d, g, j in cells:
            c += [["getfdi", 1, 1, g, d, j], ["best", 1], ["fopt", 1], ["pfree", 1]]
        r = ctx.run(exe, c, timeout=600)
        if not ctx.legit(r, "bbob %s" % (ds,), c):
            return
        opt = {t: (r.events[2 + 4 * k + 1].nums(1), fl(r.events[2 + 4 * k + 2].f[0])) for k, t in enumerate(cells)}
        pairs = [(a, b) for a in range(1, 25) for b in range(a + 1, 25)] + [(a, a) for a in (1, 2, 6, 8, 13, 14, 15, 17, 20, 21)]
        c, at = list(head), {}
        for d in ds:
            for a in range(1, 25):
                others = [b for x, b in pairs if x == a], [b for b, x in pairs if x == a]
                for j in need:
                    # as first component with the optima of later instances, as second one with those of earlier instances
                    todo = [(b, i1 + k) for i1 in [2 * i + 1 for i in ins if 2 * i + 1 == j] for k in range(1, K + 1) for b in others[0]]
                    todo += [(b, i1) for i1 in {2 * i + 1 for i in ins} if 0 < j - i1 <= K for b in others[1]]
                    if not todo:
                        continue
                    c.append(["getfdi", 1, 1, a, d, j])
                    for b, q in todo:
                        at[d, a, j, b, q] = len(c)
                        c.append(["eval", 1] + opt[d, b, q][0])
                    c.append(["pfree", 1])
        base = len(c)
        rng = random.Random("C07search/%d/%s" % (ctx.seed, job))
        for i in ins:
            d = rng.choice(ds)
            c += [["getfdi", 0, 0, rng.choice(gen.functions(s)), d, i], ["info", 0], ["pfree", 0]]
        r = ctx.run(exe, c, timeout=600)
        if not ctx.legit(r, "%s %s %s" % (s, ds, ins), head + c[base:]):
            return
        y = lambda d, a, j, b, q: fl(r.events[at[d, a, j, b, q]].f[0])
        for n, i in enumerate(ins):
            i1, want, unsure = 2 * i + 1, None, False
            for k in range(1, K + 1):
                i2, ok = i1 + k, True
                for d in ds:
                    for a, b in pairs:
                        (xa, fa), (xb, fb) = opt[d, a, i1], opt[d, b, i2]
                        gap = math.hypot(y(d, a, i1, b, i2) - fa, y(d, b, i2, a, i1) - fb)
                        far = math.sqrt(sum((u - v) ** 2 for u, v in zip(xa, xb)))
                        unsure = unsure or abs(gap - 0.1) < 1e-6 or abs(far - 1e-4) < 1e-8
                        if gap < 0.1 or far < 1e-4:
                            ok = False
                if ok:
                    want = i2
                    break
            if want is None or unsure:
                ctx.bump(instance_searches_skipped=1)
                continue
            m = re.findall(r"_f0*(\d+)_i0*(\d+)_d0*(\d+)", r.events[base + 3 * n + 1].f[1])
            got = tuple(int(t[1]) for t in m)
            if got != (i1, want):
                ctx.violation("instances of the components", "%s dimensions %s instance %d consists of the instances %s, expected (%d, %d)" % (s, ds, i, got, i1, want), {"script": head + c[base:]})
            ctx.case(("search", s, tuple(ds), i))
            ctx.bump(instance_searches=1, searches_with_rejected_candidates=int(want > i1 + 1))

    sj = []
    for k in range(36 if ctx.quick else 200):
        s = gen.BIOBJ[k % 3] if k % 10 else "bbob-biobj"
        ds = [5] if "mixint" in s else rng0.choice([[2], [2], [3], [5], [2, 3]])
        sj.append((s, ds, sorted(rng0.sample(range(16, 400), 5))))
    ctx.par(search, sj)
