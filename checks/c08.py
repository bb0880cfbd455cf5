"""Noisy suite: every value predicted by an independent model of the noise streams, noise models and boundary penalty."""
import glob, os, random
import gen, noise
from common import fl, close


def run(ctx):
    ctx.rule = ("one case = one history of interleaved evaluations of three to six noisy problems sharing a base function, run after a reset of the seeds, twice, and "
                "with an observer; every value is predicted from the noise-free value by an independent model; distinct by history; non-trivial = the same "
                "point got different values")
    exe, = ctx.build("cut:fast")
    trip = [101 + 3 * k for k in range(10)]
    jobs = []
    for d in gen.dims("bbob-noisy"):
        for t in trip:
            for rep in range(24 if ctx.quick else 120):
                jobs.append((t, d, rep))

    def one(job):
        t, d, rep = job
        rng = random.Random("C08/%d/%d/%d/%d" % (ctx.seed, t, d, rep))
        i = rng.randint(1, 15) if rep == 0 else rng.randint(1, 300)
        fs = [t, t + 1, t + 2]
        other = rng.choice([x for x in trip if x != t]) + rng.randrange(3)
        pts = [[rng.uniform(-5, 5) for _ in range(d)] for _ in range(3)]
        o = [rng.uniform(-5, 5) for _ in range(d)]
        o[rng.randrange(d)] = rng.choice([5.5, -7.0, 20.0])
        pts.append(o)
        pts.append([rng.uniform(-0.1, 0.1) for _ in range(d)])
        pts.append([rng.uniform(-1, 1) * 10 ** rng.uniform(0, 7) for _ in range(d)])
        seen = rng.choice(fs)      # the one that is observed
        seq = []
        used = fs if rep % 3 else [fs[rep // 3 % 3]]       # histories with one noise model only advance one of the streams
        for _ in range(60 if len(used) > 1 else 25):
            seq.append((rng.choice(used + [other] * (rng.random() < 0.3 and len(used) > 1)), rng.randrange(len(pts))))
        for _ in range(30 if len(used) > 1 else 8):
            seq.append((rng.choice(used), 0))
        head = [["suite", 0, "bbob-noisy", "instances: %d" % i, "dimensions: %d" % d]]
        slots = {f: 10 + k for k, f in enumerate(fs + [other])}
        make = [["getfdi", slots[f], 0, f, d, i] for f in slots]
        evs = [["eval", slots[f]] + pts[q] for f, q in seq]
        # base values: the third problem of the triple has additive noise; ask it first, right after a reset
        base = [["resetseeds"]] + [["eval", slots[t + 2]] + p for p in pts]
        bb = noise.BASE.get(t)
        cmds = head + make + base + [["fopt", slots[f]] for f in slots]
        if bb:
            cmds += [["bare", 0, bb[0], d, i], ["fopt", 0]] + [["eval", 0] + p for p in pts]
        h1 = len(cmds) + 1
        cmds += [["resetseeds"]] + evs
        # again, with problems created, freed and observed in between and non-finite points mixed in
        cmds += [["resetseeds"], ["observer", 0, "bbob", "result_folder: R"], ["addobs", slots[seen], 0]]
        h2 = []
        for k, e in enumerate(evs):
            if rng.random() < 0.1:
                bad = list(e)
                bad[2 + rng.randrange(d)] = float("nan")
                cmds.append(bad)
            if rng.random() < 0.05:
                cmds += [["getfdi", 1, 0, rng.choice(fs), d, i], ["info", 1], ["fopt", 1], ["pfree", 1]]
            h2.append(len(cmds))
            cmds.append(e)
        cmds.append(["pfree", slots[seen]])
        r = ctx.run(exe, cmds, keep=True)
        what = "noisy f%d-f%d d%d i%d" % (t, t + 2, d, i)
        logs = {}
        for n in glob.glob(os.path.join(r.dir, "exdata", "R", "data_f*", "*.*dat")):
            with open(n) as h:
                logs[n.rsplit(".", 1)[1]] = [l.split() for l in h if l[:1] != "%"]
        ctx.drop(r)
        if not ctx.legit(r, what, cmds):
            return
        ev = r.events
        bad = lambda key, msg: ctx.violation(key, what + ": " + msg, {"script": cmds[:120]})
        st = noise.Streams()
        p = 1 + len(make) + 1
        v, tol = [], []
        fopts = {}
        for k, f in enumerate(slots):
            fopts[f] = fl(ev[p + len(pts) + k].f[0])
        if len({fopts[f] for f in fs}) != 1:
            return bad("f_opt differs", "the three noise models of one function have f_opt %s" % fopts)
        fopt = fopts[t]
        for q, x in enumerate(pts):
            y = fl(ev[p + q].f[0])
            nb = noise.noisy(st, t + 2, x, 0.0, fopt)
            v.append(y - nb)
            tol.append(1e-9 * (1 + abs(y) + abs(nb)))
        p += len(pts) + len(slots)
        if bb:
            if not close(fl(ev[p + 1].f[0]), fopt, 1e-12, 1e-9):
                bad("f_opt", "f_opt is %r, of the noise-free function %s" % (fopt, ev[p + 1].f))
            for q, x in enumerate(pts):
                w = fl(ev[p + 2 + q].f[0])
                if bb[1] and max(abs(a) for a in x) > 5:
                    continue
                if abs(w - v[q]) > tol[q] + 1e-9 * abs(w):
                    return bad("noise-free value", "the value without noise at %s is %r, the noise-free function gives %r" % (x[:5], v[q], w))
        vals = {}
        st.reset()
        pred = []
        for k, (f, q) in enumerate(seq):
            got = fl(ev[h1 + k].f[0])
            if f in fs:
                w = noise.noisy(st, f, pts[q], v[q], fopt)
                # the noise amplifies the uncertainty of the noise-free value
                w2 = None
                amp = abs(w) / max(1e-300, abs(v[q] - fopt)) if abs(v[q] - fopt) > 0 else 1.0
                if abs(got - w) > 1e-7 * (1 + abs(w) + abs(fopt)) + tol[q] * max(1.0, amp) * 10:
                    return bad("noise model", "evaluation %d of the history, f%d at %s: got %r, the model predicts %r" % (k, f, pts[q][:4], got, w))
                vals.setdefault((f, q), set()).add(got)
            else:
                noise.draw(st, f, d)
            pred.append(got)
        for k, n in enumerate(h2):
            got = fl(ev[n].f[0])
            if got != pred[k] and not close(got, pred[k], 1e-10, 1e-10):
                return bad("not reproducible", "after resetting the seeds evaluation %d (f%d) gives %r instead of %r" % (k, seq[k][0], got, pred[k]))
        # the log of the observed one: noise-free values only
        qs = [q for f, q in seq if f == seen]
        if qs and not (logs.get("dat") and logs.get("tdat")):
            return bad("log", "no data logged for f%d, which was evaluated %d times" % (seen, len(qs)))
        for ext in ("dat", "tdat"):
            for l in logs.get(ext, []) if qs else []:
                k, best, cur = int(l[0]), float(l[2]), float(l[3])
                if not 1 <= k <= len(qs):
                    return bad("log", ".%s line of evaluation %d of %d" % (ext, k, len(qs)))
                lim = lambda q: 1e-8 * (1 + abs(fopt) + abs(v[q])) + 10 * tol[q]
                low = min(range(k), key=lambda j: v[qs[j]])
                if min(abs(cur - v[qs[k - 1]]) - lim(qs[k - 1]), abs(cur - v[qs[low]]) - lim(qs[low])) > 0:
                    return bad("log", ".%s: the value of evaluation %d of f%d at %s is logged as %r, noise-free it is %r" % (ext, k, seen, pts[qs[k - 1]][:4], cur, v[qs[k - 1]]))
                if abs(best - max(0.0, v[qs[low]] - fopt)) > lim(qs[low]):
                    return bad("log", ".%s: the best difference to f_opt after evaluation %d of f%d is logged as %r, noise-free it is %r" % (ext, k, seen, best, v[qs[low]] - fopt))
                ctx.bump(log_lines_compared=1)
        varied = sum(1 for f in used if len(vals.get((f, 0), ())) > 1 or noise.kind(f) == "c")
        if varied < len(used):
            bad("no noise", "repeated evaluations of one point give only one value")
        ctx.case((t, d, rep), {"problem": what, "noise-free": v[0], "noisy": sorted(vals.get((t, 0), ()))[:4]} if d == 3 else None)
        ctx.bump(values_predicted=len(seq), values_replayed=len(seq), distinct_values=sum(len(s) for s in vals.values()))

    ctx.par(one, jobs)

    # long histories: the streams keep following the model
    def far(job):
        t, N = job
        rng = random.Random("C08far/%d/%d" % (ctx.seed, t))
        d, i = 2, rng.randint(1, 15)
        pts = [[rng.uniform(-5, 5) for _ in range(d)] for _ in range(3)]
        fs = [t, t + 1, t + 2]
        seq = [(rng.choice(fs), rng.randrange(3)) for _ in range(N)]
        cmds = [["suite", 0, "bbob-noisy", "instances: %d" % i, "dimensions: %d" % d]] + [["getfdi", k, 0, f, d, i] for k, f in enumerate(fs)]
        cmds += [["fopt", 0], ["resetseeds"]] + [["eval", 2] + p for p in pts] + [["resetseeds"]] + [["eval", f - t] + pts[q] for f, q in seq]
        r = ctx.run(exe, cmds, timeout=300)
        if not ctx.legit(r, "noisy f%d-%d d%d i%d" % (t, t + 2, d, i), cmds):
            return
        fopt, st = fl(r.events[4].f[0]), noise.Streams()
        v = [fl(r.events[6 + q].f[0]) - noise.noisy(st, t + 2, pts[q], 0.0, fopt) for q in range(3)]
        st.reset()
        for k, (f, q) in enumerate(seq):
            got, w = fl(r.events[10 + k].f[0]), noise.noisy(st, f, pts[q], v[q], fopt)
            if abs(got - w) > 1e-6 * (1 + abs(w) + abs(fopt)):
                return ctx.violation("noise model", "evaluation %d after the reset, f%d d%d i%d at %s: got %r, the model predicts %r" % (k + 1, f, d, i, pts[q], got, w), {"script": cmds[:12]})
        ctx.case(("far", t, N))
        ctx.bump(values_predicted=N, long_histories=1)
    ctx.par(far, [(t, 12000 if ctx.quick else 100000) for t in trip])
