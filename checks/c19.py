"""Random streams: every number predicted by an independent implementation; interleaving, other activity, extreme seeds; distribution."""
import math, random
import gen
M = 2 ** 32
INV = pow(1812433253, -1, M)


def seed_for(target, i):
    """the seed whose i-th number (before the first refill) comes from the given 32 bit state"""
    s = target
    for k in range(i - 1, -1, -1):
        v = (s - (k + 1)) * INV % M
        s = v ^ (v >> 30)
    return s


class Model:
    def __init__(self, seed):
        x = []
        for i in range(607):
            v = seed / 4294967295.0
            x.append(v - 1.0 if v >= 1.0 else v)
            seed = (1812433253 * (seed ^ (seed >> 30)) + i + 1) % M
        self.x = x[12:]
        self.hist = x

    def uniform(self):
        if not self.x:
            # x[n] = x[n-607] + x[n-273] mod 1
            h, new = self.hist[-607:], []
            for i in range(607):
                t = h[i] + (h[i + 334] if i < 273 else new[i - 273])
                new.append(t - 1.0 if t >= 1.0 else t)
            self.hist, self.x = new, list(new)
        return self.x.pop(0)

    def normal(self):
        a, b = self.uniform(), self.uniform()
        return math.sqrt(-2 * math.log(a if a else 1e-99)) * math.cos(2 * math.pi * b)


def run(ctx):
    ctx.rule = ("one case = one program with one to five generators alive at once, numbers drawn alternately in blocks of random length while problems are created, evaluated and seeds reset; "
                "every number is compared with an independent implementation (uniform: exactly; normal: up to the last digits); distinct by program; non-trivial = a generator was refilled")
    fast, asan = ctx.build("cut:fast", "cut:asan")
    n = 1500 if ctx.quick else 8000

    def one(k):
        rng = random.Random("C19/%d/%d" % (ctx.seed, k))
        cmds, models, check = [], {}, []
        if rng.random() < .5:
            cmds += [["suite", 0, "bbob", NUL, "dimensions: 2"], ["suite", 1, "bbob-noisy", NUL, "dimensions: 2"]]
        have = len(cmds)
        seeds = [0, 1, 2, M - 1, M - 2, 2 ** 31, 2 ** 31 - 1, 1 << 30, 0xFFFF, 12345]
        for g in range(rng.randint(1, 5)):
            u = rng.random()
            s = rng.choice(seeds) if u < .3 else seed_for(rng.choice([0, 0, M - 1, M - 1, 1]), rng.randint(12, 606)) if u < .6 else rng.randrange(M)
            if g and rng.random() < .2:
                s = last
            last = s
            models[g] = Model(s)
            models[g].seed = s
            cmds.append(["rng", g, s])
        refill = False
        for _ in range(rng.randint(3, 25)):
            g = rng.choice(list(models))
            u = rng.random()
            if u < .1 and have:
                cmds.append(rng.choice([["resetseeds"], ["getfdi", 0, 0, rng.randint(1, 24), 2, 1], ["getfdi", 1, 1, rng.randint(101, 130), 2, 1],
                                        ["eval", 0, 1.0, 2.0], ["eval", 1, 1.0, 2.0]]))
                if cmds[-1][0] == "getfdi":
                    cmds.insert(-1, ["pfree", cmds[-1][1]])
            elif u < .13 and len(models) > 1:
                cmds.append(["rngfree", g])
                del models[g]
            elif u < .2:
                s = rng.randrange(M)
                cmds += [["rngfree", g], ["rng", g, s]]
                models[g] = Model(s)
                models[g].seed = s
            else:
                m = rng.choice([1, 1, 2, 7, 100, 595, 607, 1300])
                kind = rng.choice("un")
                refill |= m > 595
                cmds.append(["rng" + kind, g, m])
                check.append((len(cmds) - 1, kind, models[g].seed, [models[g].uniform() if kind == "u" else models[g].normal() for _ in range(m)]))
        r = ctx.run(asan if k % 5 == 0 else fast, cmds, loglevel="error")
        if not ctx.legit(r, "generators", cmds):
            return
        num = 0
        for at, kind, seed, want in check:
            got = r.events[at].nums()
            num += len(got)
            for j, (a, b) in enumerate(zip(got, want)):
                if kind == "u" and not 0.0 <= a < 1.0:
                    ctx.violation("uniform number out of range", "seed %d: uniform number %r" % (seed, a), {"script": cmds})
                    break
                if not (a == b if kind == "u" else abs(a - b) <= 1e-9 * max(1, abs(b))):
                    ctx.violation("%s stream" % ("uniform" if kind == "u" else "normal"), "seed %d, number %d of a block: %r, expected %r" % (seed, j, a, b), {"script": cmds})
                    break
            if len(got) != len(want):
                ctx.violation("stream length", "%d numbers instead of %d" % (len(got), len(want)), {"script": cmds})
        if refill:
            ctx.case(k, {"calls": len(cmds), "numbers": num} if num > 500 else None)
        ctx.bump(numbers=num, generators=len([c for c in cmds if c[0] == "rng"]))
    ctx.par(one, range(n))

    # distribution: moments and a histogram of long streams (bounds of six standard deviations)
    cmds, N = [], 40000
    rng = random.Random("C19d/%d" % ctx.seed)
    seeds = [1, 2, 123456] + [rng.randrange(M) for _ in range(5)]
    for s in seeds:
        cmds += [["rng", 0, s], ["rngu", 0, N], ["rngn", 0, N], ["rngfree", 0]]
    r = ctx.run(fast, cmds)
    if ctx.legit(r, "long streams", cmds):
        for k, s in enumerate(seeds):
            u, g = r.events[4 * k + 1].nums(), r.events[4 * k + 2].nums()
            mean, var = sum(g) / N, sum(v * v for v in g) / N
            h = [0] * 20
            for v in u:
                h[min(19, int(v * 20))] += 1
            chi = sum((c - N / 20) ** 2 / (N / 20) for c in h)
            bad = abs(sum(u) / N - .5) > 6 * math.sqrt(1 / 12 / N) or abs(mean) > 6 / math.sqrt(N) or abs(var - 1) > 6 * math.sqrt(2 / N) or chi > 19 + 6 * math.sqrt(38) + 20
            if bad:
                ctx.violation("distribution", "seed %d: uniform mean %g, normal mean %g, normal variance %g, chi2 %g" % (s, sum(u) / N, mean, var, chi), {"script": cmds})
            ctx.case(("dist", s))


NUL = "NULL"
