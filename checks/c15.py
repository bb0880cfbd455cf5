"""Crash points: the process is killed after each of its calls and at its output calls; what is on disk is compared with the full run."""
import os, random
import bbobmodel as bm, biobjmodel as bo, gen, vbuild
from common import fl

LEVEL = "fault_enumeration"


def counts(files):
    return {n: (len(v) if isinstance(v, list) else 0) for n, v in files.items()}


class Rw:
    """number of durable lines of the rw / toy logs"""

    def __init__(self, kind, better):
        self.kind, self.better, self.n = kind, better, {}


def run(ctx):
    ctx.rule = ("one case = one crash point of one recorded experiment: SIGKILL (or _exit) after the k-th call for every k, and SIGKILL at sampled (thorough: all) calls of the "
                "output and file system functions; distinct by experiment and point; non-trivial = something had been logged before")
    fast, = ctx.build("cut:fast")
    shim = vbuild.build_shim("killer.c")
    n = 144 if ctx.quick else 500

    def one(job):
        rng = random.Random("C15/%d/%d" % (ctx.seed, job))
        kind = ["bbob", "bbob-biobj", "rw", "toy", "bbob", "bbob-biobj", "bbob", "rw"][job % 8]
        suite = rng.choice([s for s in gen.SINGLE if s != "bbob-noisy"]) if kind in ("bbob", "toy") else rng.choice(gen.BIOBJ) if kind == "bbob-biobj" else \
            rng.choice([s for s in gen.SINGLE if s != "bbob-noisy"])
        d = rng.choice([x for x in gen.dims(suite) if (x <= 10 if rng.random() < 0.7 else 10 < x <= 80)] or [gen.dims(suite)[0]])
        long = job // 8 % 4 == 1      # many evaluations, sampled crash points
        ins = sorted(rng.sample(range(1, 16), 2))
        fs = rng.sample(gen.functions(suite), 2)
        better = rng.random() < 0.5
        otext = "result_folder: R"
        if kind == "rw":
            otext += " log_only_better: %d" % better
            otext += rng.choice(["", "", " log_variables: all", " log_variables: none", " log_constraints: all"])
        if kind == "bbob-biobj":
            otext += rng.choice(["", "", " log_decision_variables: all", " log_decision_variables: none", " compute_indicators: 0"])
        bopt = bo.Options()
        head = [["suite", 0, suite, "instances: " + ",".join(map(str, ins)), "dimensions: %d" % d], ["observer", 0, kind, otext]]
        cmds, ops = list(head), [None] * len(head)
        probs = []
        for _ in range(rng.choice([1, 2, 3])):
            t = (rng.choice(fs), d, rng.choice(ins))
            probs.append(t)
            cmds += [["getfdi", 0, 0, t[0], d, t[2]], ["info", 0], ["fopt", 0], ["addobs", 0, 0]] if kind != "bbob-biobj" else [["getfdi", 0, 0, t[0], d, t[2]], ["info", 0], ["info", 0], ["addobs", 0, 0]]
            ops += [None, ("info", t), ("fopt", t), ("begin", t)]
            r = rng.choice([0.3, 1, 3])
            cen = [rng.uniform(-4, 4) for _ in range(d)]
            for step in range(rng.choice([60, 150, 400]) if long else rng.choice([1, 3, 8, 14])):
                if long and step % 7 == 6:
                    r *= 0.8
                u = rng.random()
                if u < 0.08 and kind == "bbob":
                    cmds.append(["restart", 0, 0])
                    ops.append(("restart",))
                elif u < 0.16 and kind == "bbob":
                    x = [c + rng.gauss(0, r) for c in cen]
                    cmds.append(["rec", 0] + x)
                    ops.append(("rec", x))
                x = [c + rng.gauss(0, r) for c in cen] if rng.random() < 0.7 else [rng.uniform(-5, 5) for _ in range(d)]
                cmds.append(["eval", 0] + x)
                ops.append(("eval", x))
            cmds.append(["pfree", 0])
            ops.append(("end",))
        cmds.append(["obsfree", 0])
        ops.append(("obsfree",))
        count = os.path.join(ctx.mkdir("n"), "count")
        full = ctx.run(fast, cmds, keep=True, env={"LD_PRELOAD": shim, "KILL_COUNT": count})
        what = "%s observer on %s %s" % (kind, suite, probs)
        if not ctx.legit(full, what, cmds):
            return ctx.drop(full)
        final = bm.read_tree(os.path.join(full.dir, "exdata", "R"))
        try:
            total = int(open(count).read())
        except (OSError, ValueError):
            total = 0
        ctx.drop(full)
        ev = full.events
        # recommended and constrained points: values from an unobserved process
        extra, where = [head[0]], {}
        cur = None
        for k, o in enumerate(ops):
            if o and o[0] == "begin":
                t = o[1]
                extra.append(["getfdi", 0, 0, t[0], d, t[2]])
                cur = t
            elif o and o[0] in ("rec", "eval"):
                if o[0] == "rec":
                    extra.append(["eval", 0] + o[1])
                    where[k, "y"] = len(extra) - 1
                if "constrained" in suite:
                    extra.append(["cons", 0] + o[1])
                    where[k, "g"] = len(extra) - 1
            elif o and o[0] == "end":
                extra.append(["pfree", 0])
        ex = ctx.run(fast, extra)
        if not ctx.legit(ex, what, extra):
            return
        # lower[k]: lines that must be on disk once command k has completed
        lower, low = [], {}
        fd = bm.Folder(bm.Options()) if kind == "bbob" else bo.Folder(bopt)
        p = None
        info = fopt = None
        rwn, rwfile, best = 0, None, None
        toy = 0
        done = {}
        for k, o in enumerate(ops):
            op = o[0] if o else None
            if op == "info":
                info = ev[k]
            elif op == "fopt":
                fopt = ev[k]
            elif op == "begin":
                t = o[1]
                best, rwn, tt = None, 0, bm.Targets(100, 1e-8, 1e-5)
                if kind == "bbob":
                    p = fd.begin(suite, t[0], d, t[2], fl(fopt.f[0]), int(info.f[6]), int(info.f[5]))
                    base = counts(fd.files)
                elif kind == "bbob-biobj":
                    aname = "archive/%s_nondom_all.adat" % info.f[0]
                    nad = info.nums(8 + 3 * d, 10 + 3 * d)
                    arch, added = bo.Archive([nad[0] - 1e5, nad[1] - 1e5], nad), 0
                    abase = low.get(aname, 0)
                elif kind == "rw":
                    rwfile = info.f[0] + "_rw.txt"
                    rbase = low.get(rwfile, 0)
                    rwn = 3
                else:
                    tbase = toy
                    toy += 3
            elif op in ("eval", "rec"):
                if kind == "bbob":
                    y = fl((ev[k] if op == "eval" else ex.events[where[k, "y"]]).f[0])
                    g = ex.events[where[k, "g"]].nums() if (k, "g") in where else None
                    (p.evaluate if op == "eval" else p.recommend)(o[1], y, g)
                    for nme, c in counts(fd.files).items():
                        if nme.endswith("dat") and c > base.get(nme, 0) + 1:      # more than the header was written
                            low[nme] = c
                elif kind == "bbob-biobj":
                    y = ev[k].nums()
                    # only a lower bound is needed: not weakly dominated by any earlier point
                    if not any(a <= y[0] + 1e-6 * (abs(y[0]) + 1) and b <= y[1] + 1e-6 * (abs(y[1]) + 1) for a, b in done.get(k_begin, [])):
                        added += 1
                        low[aname] = abase + 2 + added
                    done.setdefault(k_begin, []).append(y)
                elif kind == "rw":
                    y = fl(ev[k].f[0])
                    if best is None or y < best or not better:
                        rwn += 1
                    best = y if best is None else min(best, y)
                    low[rwfile] = rbase + rwn
                else:
                    if tt.log_trigger(fl(ev[k].f[0])):
                        toy += 1
                    low["first_hitting_times.dat"] = toy
            elif op == "restart":
                if kind == "bbob":
                    p.restart()
            elif op == "end":
                if kind == "bbob":
                    p.end()
                    low.update({nme: c for nme, c in counts(fd.files).items() if nme.endswith("dat")})
                    low[p.info] = "closed"
                    low["info:" + p.info] = fd.files[p.info]
                elif kind == "bbob-biobj":
                    low[aname] = abase + 2 + added + 1
                elif kind == "rw":
                    low[rwfile] = rbase + rwn
            if op == "begin":
                k_begin = k
            lower.append(dict(low))

        def judge(r, label, ncmd):
            """files after a crash when at least ncmd commands had completed"""
            got = bm.read_tree(os.path.join(r.dir, "exdata", "R"))
            low = lower[ncmd - 1] if ncmd else {}
            replay = {"script": cmds, "crash": label}
            for nme, text in got.items():
                if nme not in final:
                    ctx.violation("foreign file", "%s, %s: unexpected file %s" % (what, label, nme), replay)
                elif not final[nme].startswith(text):
                    ctx.violation("torn or foreign data", "%s, %s: %s is not the beginning of what the full run writes: ...%r" % (what, label, nme, text[-200:]), replay)
            for nme, c in low.items():
                if nme.startswith("info:"):
                    continue
                text = got.get(nme, "")
                if c == "closed":
                    want = low["info:" + nme]
                    m = want.count(":")      # one per finished problem
                    if text.count(":") < m or text.count("|") < m:
                        ctx.violation("info of a finished problem lost", "%s, %s: %s holds %r, finished were %r" % (what, label, nme, text, want), replay)
                elif text.count("\n") < c:
                    ctx.violation("logged lines lost", "%s, %s: %s has %d complete lines on disk, at least %d had been logged" % (what, label, nme, text.count("\n"), c), replay)
            return bool(low)

        points = 0
        for k in range(2, len(cmds)) if len(cmds) < 80 else sorted(rng.sample(range(2, len(cmds)), 24)):
            how = "kill" if (k + job) % 5 else "_exit"
            r = ctx.run(fast, cmds[:k + 1] + [[how]], keep=True)
            if len(r.events) < k + 2 or not all(e.whole for e in r.events[:k + 1]):
                ctx.violation("abnormal-end: " + r.signature(), "%s: %s" % (what, r.describe()), {"script": cmds[:k + 1]})
                ctx.drop(r)
                continue
            if judge(r, "%s after call %d %s" % (how, k, cmds[k][:1]), k + 1):
                ctx.case((job, k), {"experiment": what, "point": "after call %d" % k} if k == 9 else None)
            if rng.random() < 0.03:      # the next experiment leaves the data of the crashed one alone
                before = bm.read_tree(os.path.join(r.dir, "exdata", "R"))
                r2 = ctx.run(fast, cmds, cwd=r.dir)
                if ctx.legit(r2, what + " after a crash", cmds) and bm.read_tree(os.path.join(r.dir, "exdata", "R")) != before:
                    ctx.violation("data of a crashed run changed", "%s: by the next experiment in the same place" % what, {"script": cmds[:k + 1]})
                ctx.bump(restarted_after_crash=1)
            ctx.drop(r)
            points += 1
        at = range(total) if not ctx.quick else sorted(rng.sample(range(total), min(total, 25)))
        for j in at:
            r = ctx.run(fast, cmds, keep=True, env={"LD_PRELOAD": shim, "KILL_AT": str(j)})
            if r.rc == -9:
                if judge(r, "killed at output call %d" % j, sum(e.whole for e in r.events)):
                    ctx.case((job, "out", j))
                ctx.bump(killed_inside_calls=1)
            ctx.drop(r)
        ctx.bump(experiments=1, killed_between_calls=points, output_calls=total)

    ctx.par(one, range(n))

    def old(job):
        """the old-format observer: what a crash leaves, against a run that ends properly at the same place and the full run"""
        rng = random.Random("C15old/%d/%d" % (ctx.seed, job))
        suite = rng.choice([s for s in gen.SINGLE if s != "bbob-noisy"])
        ds = rng.sample([x for x in gen.dims(suite) if x <= 80], rng.choice([1, 1, 2]))
        cmds = [["suite", 0, suite, "instances: 1-5", ""], ["observer", 0, "bbob-old", "result_folder: R" + rng.choice(["", " number_target_triggers: 10", ' base_evaluation_triggers: "1,2,3,5,7"'])]]
        dim = []
        for _ in range(rng.choice([1, 2, 4])):
            d = rng.choice(ds)
            dim.append(d)
            cmds += [["getfdi", 0, 0, rng.choice(gen.functions(suite)), d, rng.randint(1, 5)], ["addobs", 0, 0]]
            cen, r = [rng.uniform(-4, 4) for _ in range(d)], 3
            for _ in range(rng.choice([1, 5, 20, 150])):
                r *= 0.93
                if rng.random() < 0.1 and "constrained" in suite:
                    cmds.append(["cons", 0] + cen)
                cmds.append(["eval", 0] + [c + rng.gauss(0, r) for c in cen])
            cmds.append(["pfree", 0])
        cmds.append(["obsfree", 0])
        what = "bbob-old observer on " + suite

        def tree(script):
            r = ctx.run(fast, script, keep=True)
            t = bm.read_tree(os.path.join(r.dir, "exdata", "R"))
            ctx.drop(r)
            return r, t
        full, final = tree(cmds)
        if not ctx.legit(full, what, cmds):
            return
        for k in sorted(rng.sample(range(2, len(cmds)), min(len(cmds) - 2, 14))):
            inside = any(c[0] == "addobs" for c in cmds[:k + 1]) and cmds[k][0] not in ("pfree", "obsfree", "getfdi")
            tail = ([["pfree", 0]] if inside or cmds[k][0] == "getfdi" else []) + ([] if cmds[k][0] == "obsfree" else [["obsfree", 0]])
            proper, pt = tree(cmds[:k + 1] + tail)
            crash, ct = tree(cmds[:k + 1] + [["kill"]])
            label = "kill after call %d %s" % (k, cmds[k][:1])
            if not ctx.legit(proper, what, cmds[:k + 1] + tail):
                return
            if len(crash.events) < k + 2 or not all(e.whole for e in crash.events[:k + 1]):
                ctx.violation("abnormal-end: " + crash.signature(), "%s: %s" % (what, crash.describe()), {"script": cmds[:k + 1]})
                continue
            for nme, text in ct.items():
                if nme not in final or not final[nme].startswith(text):
                    ctx.violation("torn or foreign data", "%s, %s: %s is not the beginning of what the full run writes: ...%r" % (what, label, nme, text[-200:]), {"script": cmds, "crash": label})
            more = pt
            if inside:      # one more evaluation
                more = tree(cmds[:k + 1] + [["eval", 0] + [rng.uniform(-5, 5) for _ in range(dim[sum(c[0] == "addobs" for c in cmds[:k + 1]) - 1])]] + tail)[1]
            for nme, text in pt.items():
                if nme.endswith(".info") and inside:
                    continue
                # lines of the proper end that the longer run has too were logged before the end
                a, b = text.split("\n"), more.get(nme, "").split("\n")
                c = 0
                while c < min(len(a), len(b)) - 1 and a[c] == b[c]:
                    c += 1
                if inside and c and a[c - 1].startswith("%"):      # a header waits for its first line
                    while c and a[c - 1].startswith("%"):
                        c -= 1
                if ct.get(nme, "").count("\n") < c:
                    ctx.violation("logged lines lost", "%s, %s: %s has %d complete lines on disk, at least %d had been logged" % (what, label, nme, ct.get(nme, "").count("\n"), c), {"script": cmds, "crash": label})
                elif c:
                    ctx.case((job, "old", k, nme))
            ctx.bump(killed_old=1)

    ctx.par(old, range(32 if ctx.quick else 300))
