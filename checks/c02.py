"""Problem definitions: every accessor and value of the current tree against the pinned reference build."""
import random
import gen, diffsuite

MODES = "0,1,2,3,4,5,6,7,8,9,10,11,0,2,5,0,1,2,6,3,4,7,8,9"


def run(ctx):
    ctx.rule = ("one case = one problem (suite, function, dimension, instance) built in both trees, all accessors compared and its values compared at "
                "generated points (12 families: in/outside of the region of interest, around and at the optimum, corners, grids, heavy tails); "
                "non-trivial = at least two different objective values were seen")
    ctx.assumptions = ["the pinned copy ref/src defines the published problems (it is the baseline with the fixes of known-findings.txt)",
                       "agreement means 1e-7 relative or absolute (more for values that change more than that when the reference itself is compiled with re-associated arithmetic), so that re-written arithmetic is not an alarm"]
    cut, ref = ctx.build("cut:fast", "ref:fast")
    T = not ctx.quick
    npts = 24 if ctx.quick else 60
    rng = ctx.rng

    def choose(s, d):
        fs = gen.functions(s)
        ins = list(range(1, 16)) + rng.sample(range(16, 1000), 4) + [rng.randint(61, 110)]
        if s == "toy":
            return fs, [1]
        if T:
            ins = list(range(1, 16)) + rng.sample(range(16, 1500), 15)
            if d >= 160:
                ins = rng.sample(ins, 8)
            return fs, ins
        if d > 160:
            return fs, rng.sample(range(1, 16), 1)
        if d > 40:
            return fs, rng.sample(range(1, 16), 2)
        if "constrained" in s:
            return fs, rng.sample(range(1, 16), 3 if d <= 10 else 2) + rng.sample(range(16, 1000), 1)
        if "biobj" in s:
            return fs, (rng.sample(range(1, 16), 4 if d <= 20 else 1) + rng.sample(range(16, 150), 1))
        if d == 40:
            return fs, rng.sample(ins, 8)
        return fs, ins

    def jobs():
        for s, d, fs, ins in diffsuite.plan(ctx, choose):
            yield s, d, fs, ins, 1000003 * ctx.seed + d
    bare = []
    for k in range(24 if ctx.quick else 200):
        bare.append([(rng.randint(1, 24), rng.choice([2, 3, 4, 5, 6, 7, 8, 11, 13, 17, 20, 33, 40]), rng.randint(1, 999)) for _ in range(20)])

    def compare(what, cmds, label):
        a, b = ctx.run(cut, cmds, timeout=400), ctx.run(ref, cmds, timeout=400)
        if b.crashed:
            raise RuntimeError("the reference run failed: " + b.describe())
        if not ctx.legit(a, what, cmds):
            return None
        tolerant = None
        for n, (x, y) in enumerate(zip(a.events, b.events)):
            if x.f == y.f:
                continue
            kind = x.cmd
            dif = diffsuite.differ(x.f, y.f, 1e-7, 1e-7)
            if dif and tolerant is None:
                # only now: how far are these values determined at all?
                (loose,) = ctx.build("ref:loose")
                tolerant = ctx.run(loose, cmds, timeout=400).events
            if dif and n < len(tolerant):
                dif = diffsuite.differ(x.f, y.f, 1e-7, 1e-7, tolerant[n].f)
            if dif:
                # strip the script to the commands of this problem
                lo = n
                while lo > 0 and cmds[lo][0] not in ("getfdi", "bare"):
                    lo -= 1
                ctx.violation("%s differs" % {"sweep": "value", "info": "accessor", "fopt": "optimum", "state": "state"}.get(kind, kind),
                              "%s: %s: %s" % (what, label(n), dif), {"script": [cmds[0]] + cmds[lo:n + 1]})
        return a, b

    def one(job):
        s, d, fs, ins, seed = job
        mo = "biobj" in s

        def pp(s, f, d, i):
            c = [["info", 0] + (["notype"] if s == "toy" else [])]
            if not mo:
                c.append(["fopt", 0])
            n = npts if d <= 40 else 12
            if "constrained" in s and d >= 20:
                n = 10
            if s == "bbob-noisy":
                c.append(["resetseeds"])
            c.append(["sweep", 0, seed * 131 + f * 7919 + i, n, MODES, 0, 1])
            return c
        cmds, cells = diffsuite.script(s, d, fs, ins, pp)
        where = {}
        for f, i, at in cells:
            for q in range(8):
                where[at - 1 + q] = (f, i)
        res = compare("%s dimension %d" % (s, d), cmds, lambda n: "f%s i%s (%s)" % (where.get(n, ("?", "?")) + (cmds[n][0],)))
        if res is None:
            return
        a, b = res
        for f, i, at in cells:
            # events are numbered like commands
            sw = next((e for e in a.events[at:at + 5] if e.cmd == "sweep"), None)
            if sw is not None and len(set(sw.f)) > 1:
                ctx.case((s, f, d, i), {"suite": s, "f": f, "d": d, "i": i, "values": sw.f[:3]} if f % 7 == 3 and i == ins[0] else None)
                ctx.bump(values=len(sw.f))

    def two(cells):
        cmds = []
        for f, d, i in cells:
            cmds += [["bare", 0, f, d, i], ["info", 0], ["fopt", 0], ["sweep", 0, f * 31 + i, npts, MODES, 0, 1], ["pfree", 0]]
        res = compare("bare bbob problems", cmds, lambda n: "f%d d%d i%d" % cells[n // 5])
        if res:
            for c in cells:
                ctx.case(("bare",) + c)

    js = list(jobs())
    js.sort(key=lambda j: -j[1] * len(j[2]) * len(j[3]))
    ctx.par(one, js)
    ctx.par(two, bare)
