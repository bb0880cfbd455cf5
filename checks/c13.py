"""Solution archive against a brute-force non-dominated set and hypervolume."""
import math, random
import gen
from biobjmodel import Archive, GRID
from common import fl, close


def sequence(rng, n):
    """normalised objective vectors, in grid units where closeness matters"""
    kind = rng.choice(["uniform", "front", "sorted", "reverse", "layers", "clusters", "zigzag", "mixed"])
    pts = []
    if kind == "uniform":
        pts = [(rng.random(), rng.random()) for _ in range(n)]
    elif kind in ("front", "sorted", "reverse"):
        ts = [rng.random() for _ in range(n)]
        if kind != "front":
            ts.sort(reverse=kind == "reverse")
        q = rng.choice([0.5, 1.0, 2.0])
        pts = [(t, (1 - t ** q) ** (1 / q)) for t in ts]
    elif kind == "layers":
        for k in range(n):
            lay = 1 - 0.9 * (k // 20) / max(1, n // 20)
            t = rng.random()
            pts.append((t * lay, (1 - t) * lay))
    elif kind == "clusters":
        base = [(rng.random(), rng.random()) for _ in range(5)]
        for _ in range(n):
            b = rng.choice(base)
            w = rng.choice([1, 1, 3, 1000, 10 ** 6])
            pts.append(tuple((math.floor(v / GRID) + rng.randint(-2, 2) * w) * GRID for v in b))
    elif kind == "zigzag":
        lo, hi = 0.0, 1.0
        for k in range(n):
            t = lo if k % 2 else hi
            pts.append((t, 1 - t))
            lo, hi = lo + 0.5 / n, hi - 0.5 / n
    else:
        for _ in range(n):
            u = rng.random()
            if u < 0.1:
                pts.append((rng.uniform(-0.1, 1.5), rng.uniform(-0.1, 1.5)))
            elif u < 0.2:
                pts.append((rng.choice([0.0, 1.0, -1e-9, 1e-9, 1 - 1e-9, rng.random()]), rng.choice([0.0, 1.0, rng.random(), 1e-12])))
            elif u < 0.3:
                pts.append((rng.uniform(0, 1e4), rng.uniform(0, 1e4)))
            else:
                t = rng.random()
                pts.append((t, 1 - t + rng.uniform(-0.2, 0.2) * rng.random()))
    out = []
    for p in pts:
        out.append(p)
        if rng.random() < 0.08:
            out.append(rng.choice(out))
        if rng.random() < 0.05:
            q = rng.choice(out)
            e = rng.choice([1e-9, 1e-3, 0.3]) if rng.random() < 0.97 else -rng.choice([1e-9, 1e-3, 0.3])
            out.append((q[0], q[1] + e) if rng.random() < 0.5 else (q[0] + e, q[1]))
    return kind, out[:n]


def same_text(a, b):
    """equal up to the last digits of the numbers"""
    if a == b:
        return True
    a, b = a.split("\t"), b.split("\t")
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x != y:
            try:
                if not close(float(x), float(y), 1e-13, 0):
                    return False
            except ValueError:
                return False
    return True


def run(ctx):
    ctx.rule = ("one case = one archive (sometimes two interleaved ones) with a sequence of additions and interleaved queries; each addition's result, the number, the hypervolume and "
                "the texts handed out compared with a brute-force model; distinct by sequence; non-trivial = some addition kept and some refused")
    fast, asan = ctx.build("cut:fast", "cut:asan")
    n = 600 if ctx.quick else 6000

    def one(k):
        rng = random.Random("C13/%d/%d" % (ctx.seed, k))
        na = rng.choice([1, 1, 1, 2, 3])
        cmds, ar = [], []
        for a in range(na):
            s = rng.choice(gen.BIOBJ)
            d = rng.choice([x for x in gen.dims(s) if x <= 10] or [gen.dims(s)[0]])
            ar.append((s, rng.choice(gen.functions(s)), d, rng.randint(1, 15)))
            cmds += [["archive", a] + list(ar[-1]), ["anext", a], ["anext", a], ["anext", a], ["anum", a], ["ahv", a]]
        r = ctx.run(fast, cmds)
        if not ctx.legit(r, "archives %s" % ar, cmds):
            return
        models, head = [], list(cmds)
        cmds, plan = [c for c in cmds if c[0] == "archive"], []
        for a in range(na):
            ev = r.events[6 * a + 1:6 * a + 6]
            e1, e2 = ev[0].f, ev[1].f      # the text contains tabs: 0, f1, f2
            what = "archive of %s" % (ar[a],)
            if len(e1) != 3 or len(e2) != 3 or ev[2].f != [""] or ev[3].f != ["2"] or fl(ev[4].f[0]) != 0:
                ctx.violation("fresh archive", "%s holds %s" % (what, [e.f for e in ev]), {"script": head})
                return
            nadir, ideal = [float(e1[1]), float(e2[2])], [float(e2[1]), float(e1[2])]
            m = Archive(ideal, nadir)
            m.add((nadir[0], ideal[1]), "\t".join(e1))
            m.add((ideal[0], nadir[1]), "\t".join(e2))
            if len(m.items) != 2:
                ctx.violation("extremes", "%s: %s %s" % (what, e1, e2), {"script": head})
                return
            models.append((m, ideal, nadir, [e1, e2]))
        big = rng.random() < 0.1
        todo = []
        for a in range(na):
            kind, pts = sequence(rng, rng.choice([1500, 3000]) if big else rng.choice([1, 3, 10, 40, 150]))
            todo.append((kind, pts))
        order = [a for a in range(na) for _ in todo[a][1]]
        rng.shuffle(order)
        pos = [0] * na
        started = [0] * na      # texts already handed out in the running iteration
        for a in order:
            u = todo[a][1][pos[a]]
            pos[a] += 1
            m, ideal, nadir, _ = models[a]
            y = [i + v * (b - i) for v, i, b in zip(u, ideal, nadir)]
            bad = False
            for v, i, b in zip(y, ideal, nadir):
                w = (v - i) / (b - i) / GRID
                err = 4e-16 * (abs(v) + abs(i) + abs(b)) / (b - i) / GRID + abs(w) * 4e-16
                if abs(w - math.floor(w) - 0.5) < err + 1e-3:
                    bad = True      # cannot tell to which side this is rounded
            if bad:
                ctx.bump(left_out_as_ambiguous=1)
                continue
            if rng.random() < 0.03:      # values that are not finite are never better than both extremes
                w = [rng.choice(["nan", "inf", "-inf", 1e300, v]) for v in y]
                if "-inf" not in w or "inf" not in w:
                    w[rng.randrange(2)] = rng.choice(["nan", "inf", "-inf"])
                plan.append(("weird", a, len(cmds), w))
                cmds.append(["aadd", a] + w + ["weird"])
            text = "t%d" % len(plan)
            plan.append(("add", a, len(cmds), y, text))
            cmds.append(["aadd", a] + y + [text])
            if rng.random() < (0.02 if big else 0.15):
                q = rng.choice(["anum", "ahv", "atexts", "anext", "anext", "none"])
                for _ in range(rng.choice([1, 1, 2, 4])):
                    if q != "none":
                        plan.append((q, a, len(cmds)))
                        cmds.append([q, a])
        for a in range(na):
            for q in ("ahv", "anum", "atexts", "anext", "anext", "anum", "ahv"):
                plan.append((q, a, len(cmds)))
                cmds.append([q, a])
            cmds.append(["afree", a])
        r = ctx.run(asan if k % 4 == 0 and not big else fast, cmds)
        what = "archives %s, %s" % (ar, [t[0] for t in todo])
        if not ctx.legit(r, what, cmds):
            return
        kept = refused = 0
        given = [[] for _ in range(na)]      # how much of the current iteration was handed out; reset by a kept addition

        def expected(a):
            m, _, _, (e1, e2) = models[a]
            ext = {"\t".join(e1), "\t".join(e2)}
            rest = sorted(((p[1], t) for p, t in m.items if t not in ext))
            return ["\t".join(e1), "\t".join(e2)] + [t for _, t in rest]
        for q in plan:
            a, e = q[1], r.events[q[2]]
            m = models[a][0]
            if q[0] == "add":
                ok = m.add(q[3], q[4]) is not None
                kept, refused = kept + ok, refused + (not ok)
                if ok:
                    given[a] = []
                if e.f[0] != ("1" if ok else "0"):
                    ctx.violation("result of an addition", "%s: adding %s as %s reports %s" % (what, q[3], q[4], e.f[0]), {"script": cmds[:q[2] + 1][-400:], "head": head})
                    return
            elif q[0] == "weird":
                if e.f[0] != "0":
                    ctx.violation("addition of non-finite values", "%s: adding %s reports %s" % (what, q[3], e.f[0]), {"script": cmds[:q[2] + 1][-400:], "head": head})
                    return
                ctx.bump(non_finite_additions=1)
            elif q[0] == "anum":
                if e.f[0] != str(len(m.items)):
                    ctx.violation("number", "%s: %s solutions, expected %d" % (what, e.f[0], len(m.items)), {"script": cmds[:q[2] + 1]})
                    return
            elif q[0] == "ahv":
                v, w = fl(e.f[0]), m.hypervolume()
                if not abs(v - w) <= 1e-9:
                    ctx.violation("hypervolume", "%s: %r, expected %r" % (what, v, w), {"script": cmds[:q[2] + 1]})
                    return
            else:
                want = expected(a)
                nxt = want[len(given[a]):] if q[0] == "atexts" else (want + [""])[len(given[a]):][:1] or [""]
                got = "\t".join(e.f)
                if not same_text(got, "\t".join(nxt)):
                    ctx.violation("texts", "%s: handed out %r, expected %r" % (what, got[:300], "\t".join(nxt)[:300]), {"script": cmds[:q[2] + 1]})
                    return
                given[a] = want[:len(given[a]) + len(nxt)]
        if kept and refused:
            ctx.case(k, {"archives": ar, "kinds": [t[0] for t in todo], "kept": kept, "refused": refused} if big else None)
        ctx.bump(additions=kept + refused, kept=kept, queries=len(plan) - kept - refused, largest=0)
        with ctx.lock:
            ctx.counters["largest"] = max(ctx.counters["largest"], max(len(m[0].items) for m in models))

    ctx.par(one, range(n))
