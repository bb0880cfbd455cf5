"""Known optima: attained, feasible, in the region of interest, never undercut; final target flag at the optimum."""
import math, random
import gen
from common import fl

SUITES = ["bbob", "bbob-boxed", "bbob-largescale", "bbob-constrained", "bbob-constrained-active-only", "bbob-constrained-no-disguise", "bbob-mixint", "toy"]
# point families of the driver, see gen_point/minof
MODES = {"": "0,1,2,3,4,5,5,7,7,8,9,10,11,21,22,22,22,22", "c": "0,2,5,5,7,20,20,20,22,22,22,21", "m": "0,1,5,7,8,9,21,22,22,23,23,23,23"}


def run(ctx):
    ctx.rule = ("one case = one problem whose recorded optimum was evaluated and which was attacked by sampled points and a random descent from the optimum; "
                "non-trivial = at least one feasible competitor was evaluated")
    exe, = ctx.build("cut:fast")
    rng = ctx.rng
    n = 1200 if ctx.quick else 6000
    jobs = []
    for s in SUITES:
        for d in gen.dims(s):
            if d > 160 and ctx.quick and s != "bbob-largescale":
                continue
            ins = [1] if s == "toy" else (rng.sample(range(1, 16), 3 if d <= 20 else 2) + [rng.randint(16, 400)] if d <= 40 else [rng.randint(1, 15)])
            if "constrained" in s and ctx.quick:
                ins = ins[:2] + ins[-1:]
            if not ctx.quick and s != "toy":
                ins = list(range(1, 16)) + rng.sample(range(16, 1000), 10) if d <= 40 else rng.sample(range(1, 16), 5)
            fs = gen.functions(s)
            blk = 6 if d >= 40 else 12
            for k in range(0, len(fs), blk):
                jobs.append((s, d, fs[k:k + blk], ins))
    jobs.sort(key=lambda j: -j[1] ** 2 * len(j[3]))

    def one(job):
        s, d, fs, ins = job
        mode = MODES["c" if "constrained" in s else "m" if "mixint" in s else ""]
        m = n if d <= 40 else max(30, n // 8)
        cmds, cells = [["suite", 0, s, "instances: " + ",".join(map(str, ins)), "dimensions: %d" % d]], []
        for f in fs:
            for i in ins:
                cells.append((f, i, len(cmds)))
                cmds += [["getfdi", 0, 0, f, d, i], ["info", 0] + (["notype"] if s == "toy" else []),
                         ["minof", 0, ctx.seed * 1000 + 17 * f + i, m, mode], ["best", 0], ["state", 0], ["pfree", 0]]
        r = ctx.run(exe, cmds, timeout=600)
        if not ctx.legit(r, "%s d%d" % (s, d), cmds):
            return
        for f, i, at in cells:
            what = "%s f%d d%d i%d" % (s, f, d, i)
            info, mo, best, st = (r.events[at + q] for q in (1, 2, 3, 4))
            bad = lambda key, msg: ctx.violation(key, what + ": " + msg, {"script": [cmds[0]] + cmds[at:at + 6]})
            if mo.f[0] == "NOBEST" or best.f[0] != "1":
                bad("no optimum", "the optimal solution is not available")
                continue
            fopt, yb, gb = (fl(v) for v in mo.f[:3])
            nfeas, worst = int(mo.f[3]), fl(mo.f[4])
            scale = 1e-8 + 1e-9 * abs(fopt)
            if not abs(yb - fopt) <= scale:
                bad("optimum not attained", "f(x_opt)=%r but f_opt=%r" % (yb, fopt))
            if gb > 1e-8:
                bad("optimum infeasible", "a constraint has the value %r at x_opt" % gb)
            if nfeas and not worst >= fopt - scale:
                bad("optimum undercut", "f=%r at %s, below f_opt=%r by %g" % (worst, [fl(v) for v in mo.f[5:11]], fopt, fopt - worst))
            lo, up, xo = info.nums(8, 8 + d), info.nums(8 + d, 8 + 2 * d), best.nums(1)
            if len(xo) != d or not all(l - 1e-9 <= x <= u + 1e-9 for l, x, u in zip(lo, xo, up)):
                bad("optimum outside of the region of interest", "x_opt=%s" % (xo[:8],))
            nint = int(info.f[6])
            if any(x != math.floor(x) for x in xo[:nint]):
                bad("optimum not integer", "x_opt=%s with %d integer variables" % (xo[:8], nint))
            if st.f[2] != "1":
                bad("target not hit at the optimum", "after evaluating x_opt the final target is not reported as hit: %s" % st.f)
            if nfeas:
                ctx.case((s, f, d, i), {"problem": what, "f_opt": fopt, "f(x_opt)": yb, "competitors": nfeas, "best competitor": worst} if f % 11 == 5 else None)
                ctx.bump(competitors=nfeas)

    ctx.par(one, jobs)
