"""Result folders: concurrent and successive experiments asking for the same folder; who got which folder, and what is in it afterwards."""
import os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import bbobmodel as bm, gen, vbuild
from common import fl

OBS = {"bbob": "bbob", "bbob-biobj": "bbob-biobj", "rw": "bbob", "toy": "bbob", "bbob-constrained": "bbob-constrained", "bbob-largescale": "bbob-largescale"}


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in ds:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = "DIR" if not os.path.islink(p) else "LINK " + os.readlink(p)
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = "LINK " + os.readlink(p) if os.path.islink(p) else open(p, "rb").read()
    return out


def run(ctx):
    ctx.rule = ("one case = one scenario: one to ten processes, started together and slowed down at random at their file system calls, each creating one to four observers that ask for "
                "the same result folder, next to leftovers of earlier experiments; distinct by scenario; non-trivial = at least two observers asked for the same folder")
    fast, = ctx.build("cut:fast")
    shim = vbuild.build_shim()
    n = 120 if ctx.quick else 1500

    def one(k):
        rng = random.Random("C14/%d/%d" % (ctx.seed, k))
        cwd = ctx.mkdir("s")
        name = rng.choice(["R", "a/b/c", "res_2024", "deep/R", "R-0001"])
        base = os.path.join(cwd, "exdata", name)
        # leftovers of earlier runs
        left, many = rng.random(), False
        if k < 2:
            left = 0.65
        if left < 0.5:
            os.makedirs(os.path.dirname(base))
            for q in rng.sample(["", "-0001", "-0002", "-0003", "-0005", "-9"], rng.randint(0, 4)):
                p = base + q
                u = rng.random()
                if u < 0.6:
                    os.makedirs(os.path.join(p, "data_f1"))
                    for fn in ("bbobexp_f1.info", "data_f1/bbobexp_f1_DIM2.dat", "first_hitting_times.dat"):
                        with open(os.path.join(p, fn), "w") as f:
                            f.write("precious %s" % q)
                elif u < 0.8:
                    with open(p, "w") as f:
                        f.write("a file")
                else:
                    os.symlink("nowhere", p)
        elif left < 0.6:
            os.makedirs(os.path.join(cwd, "exdata"))
        elif left < 0.68 or k < 2:
            # a long series of earlier experiments
            m = rng.choice([8, 9, 10, 11, 98, 99, 100, 101, 255, 256, 998, 999, 1000]) if k != 1 else rng.randint(9500, 9985)
            hole = rng.randint(1, m)
            for c in range(m + 1):
                if c != hole or rng.random() < 0.5:
                    os.makedirs(base if c == 0 else "%s-%04d" % (base, c))
            many = m > 200
        before = snapshot(cwd)
        nproc = rng.choice([1, 2, 4, 8, 10])
        oname = rng.choice(list(OBS))
        suite = OBS[oname]
        scripts, want = [], []
        go = os.path.join(cwd, "go")
        for q in range(nproc):
            d = 2
            cmds = [["suite", 0, suite, "instances: 1-3", "dimensions: %d" % gen.dims(suite)[0] if suite == "bbob-largescale" else "dimensions: 2"], ["await", go]]
            d = gen.dims(suite)[0] if suite == "bbob-largescale" else 2
            mine = []
            for o in range(rng.choice([1, 1, 2, 4])):
                tag = "P%dO%d" % (q, o)
                cmds.append(["observer", o, oname, "result_folder: %s algorithm_name: %s" % (name + rng.choice(["", "", "", "/", "//"]), tag)])
                mine.append((len(cmds) - 1, tag))
                for f in rng.sample(range(1, 20), 2):
                    i = rng.randint(1, 3)
                    cmds += [["getfdi", 0, 0, f, d, i], ["addobs", 0, o]]
                    for _ in range(rng.choice([1, 4, 12])):
                        cmds.append(["eval", 0] + [rng.uniform(-5, 5) for _ in range(d)])
                    cmds.append(["pfree", 0])
                if rng.random() < 0.4:
                    cmds.append(["obsfree", o])
            scripts.append((cmds, mine))
        log = os.path.join(cwd, "syscalls")
        env = {"LD_PRELOAD": shim, "SHIM_SEED": str(rng.randrange(10 ** 6)), "SHIM_DELAY": str(0 if many else rng.choice([0, 300, 2000, 6000])), "SHIM_LOG": log}
        with ThreadPoolExecutor(nproc + 1) as ex:
            fut = [ex.submit(ctx.run, fast, c, cwd=cwd, env=env) for c, _ in scripts]
            import time
            time.sleep(0.03 + 0.01 * nproc)
            open(go, "w").close()
            res = [f.result() for f in fut]
        what = "%d processes, observer %s asking for '%s', leftovers %s" % (nproc, oname, name, sorted(x for x in before if x.count("/") <= 3)[:8])
        replay = {"scripts": [c for c, _ in scripts], "env": {a: b for a, b in env.items() if a != "LD_PRELOAD"}, "leftovers": sorted(before)}
        owners = {}
        for (cmds, mine), r in zip(scripts, res):
            if not ctx.legit(r, what, cmds):
                return ctx.drop(cwd)
            for at, tag in mine:
                f = r.events[at].f
                if f[0] != "ok":
                    ctx.violation("no observer", "%s: %s" % (what, f), replay)
                    return ctx.drop(cwd)
                p = os.path.normpath(f[1])
                if p in owners:
                    ctx.violation("shared folder", "%s: folder %s was given to %s and to %s" % (what, p, owners[p][0], tag), replay)
                    return ctx.drop(cwd)
                owners[p] = (tag, cmds, at)
        rel = os.path.join("exdata", name)
        for p, (tag, _, _) in owners.items():
            if p in before:
                ctx.violation("folder existed", "%s: %s was given the folder %s, which existed before" % (what, tag, p), replay)
            if not re.fullmatch(re.escape(rel) + r"(-\d{4})?", p):
                ctx.violation("folder name", "%s: %s was given the folder %s" % (what, tag, p), replay)
        # numbers are handed out without gaps: the requested name first, then -0001, -0002, ... skipping what exists
        exp, c = [], 0
        while len(exp) < len(owners):
            p = rel if c == 0 else "%s-%04d" % (rel, c)
            if p not in before:
                exp.append(p)
            c += 1
        if sorted(exp) != sorted(owners):
            ctx.violation("folder numbering", "%s: folders %s, expected %s" % (what, sorted(owners), exp), replay)
        after = snapshot(cwd)
        for p, v in before.items():
            if after.get(p) != v:
                ctx.violation("earlier data changed", "%s: %s was %s" % (what, p, "removed" if p not in after else "changed"), replay)
        for p in after:
            if p in before or p in ("go", "syscalls"):
                continue
            if not any(p == o or p.startswith(o + "/") or o.startswith(p + "/") for o in owners):
                ctx.violation("file outside of the folders", "%s: %s appeared" % (what, p), replay)
        # each folder holds exactly what its owner logs when running alone
        for p, (tag, cmds, at) in owners.items():
            if len(owners) > 4 and rng.random() > 0.4:
                continue
            o = cmds[at][1]
            alone, keep = [], False
            for j, cm in enumerate(cmds):
                if cm[0] == "await" or (cm[0] == "obsfree"):
                    continue
                if cm[0] == "observer":
                    keep = j == at
                if cm[0] == "suite" or keep:
                    alone.append(cm)
            r = ctx.run(fast, alone, keep=True)
            a = bm.read_tree(os.path.join(r.dir, "exdata", name))
            b = bm.read_tree(os.path.join(cwd, p))
            if a != b and not r.crashed:
                diff = sorted(x for x in set(a) | set(b) if a.get(x) != b.get(x))
                ctx.violation("foreign or missing data", "%s: folder %s of %s differs in %s from the same experiment run alone" % (what, p, tag, diff[:5]), replay)
            ctx.drop(r)
            ctx.bump(folders_compared=1)
        coll = ok = 0
        try:
            for l in open(log):
                t = l.split("\t")
                if t[1] == "mkdir":
                    coll += t[2] != "0"
                    ok += t[2] == "0"
        except OSError:
            pass
        ctx.drop(cwd)
        if len(owners) > 1 or before:
            ctx.case(k, {"scenario": what, "folders": sorted(owners)} if nproc > 4 else None)
        ctx.bump(observers=len(owners), processes=nproc, directories_created=ok, directory_collisions=coll)

    ctx.par(one, range(n), 4)

    # all numbers used up: no observer may be given an existing folder
    def full(free):
        cwd = ctx.mkdir("full")
        base = os.path.join(cwd, "exdata", "R")
        os.makedirs(base)
        for q in range(1, 10000):
            if q != free:
                os.mkdir("%s-%04d" % (base, q))
        before = set(os.listdir(os.path.join(cwd, "exdata")))
        c = [["observer", 0, "toy", "result_folder: R"]]
        r = ctx.run(fast, c, cwd=cwd, loglevel="error")
        after = set(os.listdir(os.path.join(cwd, "exdata")))
        got = os.path.basename(r.events[0].f[1]) if r.events and len(r.events[0].f) > 1 else None
        if got is None and not (r.rc == 1 and "COCO FATAL ERROR" in r.err):
            ctx.violation("folder numbers used up", "no folder and no fatal error: %s" % r.describe(), {"script": c, "free": free})
        if got is not None and got in before or any(os.listdir(os.path.join(cwd, "exdata", p)) for p in before):
            ctx.violation("folder numbers used up", "the existing folder %s was used" % got, {"script": c, "free": free})
        if free is not None and got != "R-%04d" % free:
            ctx.violation("folder numbers used up", "got %s although R-%04d was free" % (got, free), {"script": c, "free": free})
        ctx.drop(cwd)
        ctx.case(("full", free))
    ctx.par(full, [None, 9998, 9000, 1234], 4)

    # the same problem groups started again and again in one folder: a new data file each time, earlier ones left alone
    def groups(k):
        rng = random.Random("C14/groups/%d/%d" % (ctx.seed, k))
        suite = rng.choice(["bbob", "bbob-mixint", "bbob-constrained", "bbob-noisy", "bbob-boxed"])
        starts = [3, 8, 14, 30, 70, 130, 260][k % 7] * 2
        d = sorted(rng.sample([x for x in gen.dims(suite) if x <= 10], 2))
        fs = rng.sample(gen.functions(suite), 2)
        grp = [(fs[0], d[0]), rng.choice([(fs[0], d[1]), (fs[1], d[0])])]
        cmds = [["suite", 0, suite, "instances: 1-5", "dimensions: %d,%d" % tuple(d)], ["observer", 0, suite if suite == "bbob" else "bbob", "result_folder: R"]]
        exp = {}
        for q in range(starts):
            f, dim = grp[q % 2]
            nth = q // 2
            fn = "data_f%d/bbobexp_f%d_DIM%d%s.dat" % (f, f, dim, "-%04d" % nth if nth else "")
            for i in range(rng.choice([1, 1, 1, 2])):
                cmds += [["getfdi", 0, 0, f, dim, rng.randint(1, 5)], ["addobs", 0, 0]]
                for _ in range(rng.choice([1, 1, 3])):
                    cmds.append(["eval", 0] + [rng.uniform(-5, 5) for _ in range(dim)])
                cmds.append(["pfree", 0])
                exp[fn] = exp.get(fn, 0) + 1
        r = ctx.run(fast, cmds, keep=True)
        what = "%s: groups %s started %d times in one folder" % (suite, grp, starts)
        if ctx.legit(r, what, cmds):
            root = os.path.join(r.dir, "exdata", "R")
            t = bm.read_tree(root)
            got = {fn: len(re.findall(r"(?m)^%", x if isinstance(x, str) else x.decode("latin-1"))) for fn, x in t.items() if fn.endswith(".dat")}
            if got != exp:
                bad = sorted(x for x in set(got) | set(exp) if got.get(x) != exp.get(x))
                ctx.violation("data files of a restarted group", "%s: %s" % (what, ["%s holds %s problems, expected %s" % (x, got.get(x), exp.get(x)) for x in bad[:3]]), {"script": cmds})
            listed = []
            for fn, x in t.items():
                if fn.endswith(".info"):
                    listed += re.findall(r"(?m)^(data_f\d+/[^,\n]*\.dat)", x if isinstance(x, str) else x.decode("latin-1"))
            if sorted(listed) != sorted(exp):
                ctx.violation("data files in the info files", "%s: listed are %s" % (what, sorted(listed)[:6]), {"script": cmds})
            ctx.case(("groups", k), {"scenario": what})
            ctx.bump(group_starts=starts)
        ctx.drop(r)
    ctx.par(groups, range(21 if ctx.quick else 210), 6)
