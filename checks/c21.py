"""The Java classes against the C core: the same history through both; the JNI library compiled with AddressSanitizer, the JVM's own JNI checker on."""
import os, random, re
import bbobmodel as bm, gen, jbuild, obsopts
from common import fl

SUITES = [s for s in gen.SUITES if s != "toy"]


def same(a, b):
    return a == b or (a != a and b != b)


def run(ctx):
    ctx.rule = ("one case = one random history over one to three suites, observers and problems (taken in sequence, by index, and by function, dimension and instance) executed through the Java classes and through the C API: "
                "everything returned and all log files compared; distinct by history; non-trivial = at least one evaluation through both")
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        fa, fb = ex.submit(lambda: ctx.build("cut:fast")), ex.submit(jbuild.build, "asan")
        (fast,), dest = fa.result(), fb.result()
    jenv, jcmd = jbuild.env("asan"), jbuild.command(dest)
    n = 20 if ctx.quick else 150

    def segment(rng, s, b):
        """calls on one suite (number b, observers 2b and 2b + 1, problems from 300 b on)"""
        bi = "biobj" in s
        nf, first, ds, _, _ = gen.SUITES[s]
        dd = sorted(rng.sample([d for d in ds if d <= 40], rng.randint(1, 2)))
        fs = sorted(rng.sample(range(nf), min(nf, rng.randint(1, 4))))
        inst = rng.choice([[1], [1, 2], [3, 7], [2, 5, 11]])
        sopt = "dimensions: %s function_indices: %s" % (",".join(map(str, dd)), ",".join(str(f + 1) for f in fs))
        iopt = "instances: " + ",".join(map(str, inst))
        obs = []
        cmds = [["suite", b, s, iopt, sopt]]
        for k in range(2):
            name = ("bbob-biobj" if bi else "bbob") if k == 0 else rng.choice(["rw", "rw", "no_observer"])
            o = re.sub(r"log_time: \d ?", "", obsopts.options(rng, name if name != "no_observer" else "rw", "R%d" % (2 * b + k))).strip()
            cmds.append(["observer", 2 * b + k, name, o])
            obs.append(name)
        live, slot, wraps = {}, 300 * b, {}
        own = set()

        def call(p):
            d = live[p]
            x = [float(rng.randint(-2, 6)) if rng.random() < .1 else rng.uniform(-6, 6) for _ in range(d)]
            if rng.random() < .04:
                x[rng.randrange(d)] = rng.choice([float("nan"), float("inf"), float("-inf")])
            u = rng.random()
            if u < .6:
                cmds.append(["eval", p] + x)
            elif u < .75 and "constr" in s:
                cmds.append(["cons", p] + x)
            elif u < .8:
                cmds.append(["state", p])
            elif u < .85:
                cmds.append(["info", p])
            elif u < .9 and wraps.get(p):
                cmds.append(["restart", 2 * b + rng.choice(wraps[p]), p])
            elif u < .93 and wraps.get(p) and obs[wraps[p][-1]] == "bbob":
                cmds.append(["rec", p] + x)
            elif u < .95:
                cmds.append(["gc"])
            else:
                cmds.append(["eval", p] + x)
        # the sequence, with one observer
        o = rng.choice([0, 0, 1])
        order = [(dim, f, i) for dim in dd for f in fs for i in inst]
        steps = rng.randint(1, len(order) + 1)
        for k in range(steps):
            slot += 1
            cmds.append(["next", slot, b, 2 * b + o])
            live = {p: d for p, d in live.items() if p in own}
            if k >= len(order):
                break
            live[slot] = order[k][0]
            wraps[slot] = [o]
            cmds.append(["info", slot])
            for _ in range(rng.randint(1, 12)):
                call(slot)
            cmds.append(["state", slot])
            if rng.random() < .3:
                # a problem of our own in between
                slot += 1
                dim, f, i = rng.choice(order)
                cmds.append(["getfdi", slot, b, first + f, dim, i])
                own.add(slot)
                live[slot] = dim
                cmds.append(["info", slot])
                if o == 0 and rng.random() < .5 and obs[1] == "rw":
                    cmds += [["addobs", slot, 2 * b + 1], ["info", slot]]
                    wraps[slot] = [1]
                    for _ in range(rng.randint(1, 6)):
                        call(slot)
                    if rng.random() < .7:
                        cmds += [["rmobs", slot, 2 * b + 1], ["info", slot], ["state", slot]]
                        wraps[slot] = []
                    else:
                        cmds += [["state", slot], ["rmobs", slot, 2 * b + 1]]
                        wraps[slot] = []
                for _ in range(rng.randint(1, 4)):
                    call(slot)
                if rng.random() < .3:
                    cmds += [["getfdi", slot + 1, b, first + nf + 3, dim, i], ["getfdi", slot + 1, b, first + f, dim, 1234]]
        idx = rng.randrange(10)
        cmds += [["getp", 300 * b + 299, b, idx]]
        cmds += [["finish", b, 2 * b + o]] if rng.random() < .6 else [["suitefree", b], ["obsfree", 2 * b + o]]
        cmds += [["obsfree", 2 * b + 1 - o]]
        return cmds, "%s %s %s" % (s, sopt, iopt)

    def one(job):
        s, rep = job
        rng = random.Random("C21/%d/%s/%d" % (ctx.seed, s, rep))
        parts = [segment(rng, q, b) for b, q in enumerate([s] + rng.sample(SUITES, rng.choice([0, 1, 1, 2])))]
        what = " + ".join(p[1] for p in parts)
        # the parts one after the other, or merged in bursts
        cmds, todo = [], [p[0] for p in parts]
        whole = rng.random() < .4
        while todo:
            q = todo[0] if whole else rng.choice(todo)
            k = len(q) if whole else rng.choice([1, 2, 5, 15])
            cmds += q[:k]
            del q[:k]
            todo = [q for q in todo if q]
        # the same for the C driver
        ccmds, back = [], []
        for k, c in enumerate(cmds):
            if c[0] == "finish":
                ccmds += [["obsfree", c[2]], ["suitefree", c[1]]]
                back += [None, None]
            elif c[0] == "gc":
                pass
            else:
                ccmds.append(c)
                back.append(k)
        rc = ctx.run(fast, ccmds, keep=True, loglevel="error")
        rj = ctx.run(jcmd[0], cmds, keep=True, loglevel="error", env=jenv, argv=jcmd[1:])
        bad = lambda key, msg: ctx.violation(key, "%s: %s" % (what, msg), {"script": cmds})
        try:
            if rc.crashed:
                return bad("core: " + rc.signature(), "the same history through the C API: " + rc.describe())
            jni = [l for l in rj.out.splitlines() + rj.err.splitlines() if re.search(r"in native method|JNI .*(FATAL|ERROR)|FATAL ERROR", l)]
            if rj.crashed or [l for l in jni if "FATAL" in l]:
                return bad("Java: " + (rj.signature() if rj.crashed else jni[0][:80]), "%s %s %s" % (rj.describe(), jni[:3], rj.out[-300:]))
            pos = {k: e for k, e in zip(back, rc.events) if k is not None}
            evals = 0
            for k, (c, e) in enumerate(zip(cmds, rj.events)):
                if k not in pos:
                    continue
                g, w = e.f, pos[k].f
                if c[0] in ("observer", "restart", "obsfree"):      # nothing to return; no_observer is NULL in C
                    continue
                elif c[0] == "state":
                    w = w[:3]
                elif c[0] == "info":
                    d, m = int(w[3]), int(w[4])
                    lo, up, nad = w[8:8 + d], w[8 + d:8 + 2 * d], w[8 + 3 * d:]
                    w = w[:2] + ["-"] + w[3:8] + lo + up + ["|"] + (nad if m == 2 else []) + ["|", w[0], lo[-1], up[0]]
                ok = len(g) == len(w)
                if ok:
                    for a, b in zip(g, w):
                        if a != b:
                            try:
                                if not same(fl(a), fl(b)):
                                    ok = False
                            except ValueError:
                                ok = False
                if not ok:
                    return bad("%s differs" % c[0], "call %d, %s: Java %s, C %s" % (k, c[:4], g[:12], w[:12]))
                evals += c[0] in ("eval", "cons")
            if len(rj.events) != len(cmds):
                return bad("calls lost", "%d events of %d" % (len(rj.events), len(cmds)))
            a, b = bm.read_tree(rj.dir), bm.read_tree(rc.dir)
            if a != b:
                name = next((x for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)), None)
                return bad("log differs", "%s: through Java %r, through C %r" % (name, (a.get(name) or "")[-400:], (b.get(name) or "")[-400:]))
            ctx.bump(calls=len(cmds), evaluated=evals, files_compared=len(a), jni_warnings=len(jni))
            if evals:
                ctx.case((what, repr(cmds)), {"case": what, "calls": len(cmds), "files": len(a)} if len(cmds) > 80 else None)
        finally:
            ctx.drop(rc, rj)

    ctx.par(one, [(s, k) for s in SUITES for k in range(n)])
