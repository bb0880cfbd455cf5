"""Directory removal and creation: snapshots of a scratch tree around the calls, made by an unprivileged user."""
import os, random, shutil, socket, stat, subprocess
from common import SAN_ENV, Result, parse_events, to_text
NOBODY = 65534


def snapshot(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            st = os.lstat(p)
            kind = stat.S_IFMT(st.st_mode)
            data = None
            if stat.S_ISLNK(st.st_mode):
                data = os.readlink(p)
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    data = f.read()
            out[os.path.relpath(p, root)] = (kind, stat.S_IMODE(st.st_mode), data)
    return out


NAMES = ["a", "b.txt", ".hidden", "..a", "...", "with space", "star*", "%s%n%d", "back\\slash", "ünï", "new\nline", "tab\tx", "-rf", "~", "$HOME", "x" * 200, "'quote\"", "victim", "data_f1", "c;d", "#"]


def populate(rng, root, outside, depth, budget, hard):
    """fills a directory; returns True if it contains something an unprivileged user cannot remove"""
    stuck = False
    locked = False
    for n in rng.sample(NAMES, rng.randint(0, min(len(NAMES), 8))):
        p = os.path.join(root, n)
        u = rng.random()
        budget[0] -= 1
        if budget[0] < 0:
            break
        if u < .35:
            with open(p, "w") as f:
                f.write("x" * rng.choice([0, 1, 1000]))
            if rng.random() < .3:
                os.chmod(p, rng.choice([0o400, 0o000, 0o600]))
        elif u < .6 and depth < 5:
            os.mkdir(p)
            stuck |= populate(rng, p, outside, depth + 1, budget, hard)
        elif u < .85:
            t = rng.choice([outside, os.path.join(outside, "dir"), os.path.join(outside, "file"), "..", ".", "../..", n, "nowhere", "../outside", "../../outside", "../../outside/dir", "/dev/null"])
            os.symlink(t, p)
        elif u < .9:
            os.mkfifo(p)
        elif u < .95:
            os.link(os.path.join(outside, "file"), p)
        else:
            try:
                s = socket.socket(socket.AF_UNIX)
                s.bind(p)
                s.close()
            except OSError:
                pass
        locked |= depth > 0
    if hard and locked and rng.random() < .3:
        os.chmod(root, 0o500)      # its entries cannot be removed
        stuck |= bool(os.listdir(root))
    return stuck


def run(ctx):
    ctx.rule = ("one case = one call of the removal on a random tree (links, hidden and odd names, special files, hard links, read-only parts, missing or non-directory targets) or the creation of an "
                "observer's folders next to existing data, made as an unprivileged user, with a snapshot of everything around before and after; distinct by tree; non-trivial = the tree had an entry")
    fast, asan = ctx.build("cut:fast", "cut:asan")
    base = ctx.scratch
    os.chmod(base, 0o755)
    exes = {}
    for k, e in (("fast", fast), ("asan", asan)):
        exes[k] = os.path.join(base, k)
        shutil.copy(e, exes[k])
        os.chmod(exes[k], 0o755)
    root = os.geteuid() == 0

    def call(exe, cmds, cwd, io):
        sc, evp = os.path.join(io, "script"), os.path.join(io, "events")
        with open(sc, "w") as f:
            f.write(to_text(cmds))
        if root:
            os.chmod(io, 0o755)
            os.chown(io, NOBODY, NOBODY)
        r = Result()
        e = dict(os.environ)
        e.update(SAN_ENV)
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if root else {}
        p = subprocess.run([exe, sc, evp, "error"], cwd=cwd, env=e, stdin=subprocess.DEVNULL, capture_output=True, timeout=120, **kw)
        r.rc, r.err = p.returncode, p.stderr.decode(errors="replace")
        r.events, r.ended, r.clean = parse_events(evp)
        return r

    def give(path):
        """the tree belongs to the unprivileged user"""
        if root:
            for d, dirs, files in os.walk(path):
                for n in dirs + files:
                    os.lchown(os.path.join(d, n), NOBODY, NOBODY)
            os.chown(path, NOBODY, NOBODY)

    def wipe(w):
        for d, dirs, files in os.walk(w):
            for n in dirs:
                p = os.path.join(d, n)
                if not os.path.islink(p):
                    os.chmod(p, 0o700)
        shutil.rmtree(w, ignore_errors=True)

    def removal(k):
        rng = random.Random("C22/%d/%d" % (ctx.seed, k))
        w, io = ctx.mkdir("t"), ctx.mkdir("i")
        out, vic = os.path.join(w, "outside"), os.path.join(w, "victim")
        os.makedirs(os.path.join(out, "dir", "sub"))
        for n in ("file", "dir/f1", "dir/sub/f2", "victim2"):
            with open(os.path.join(out, n), "w") as f:
                f.write("precious " + n)
        for n in ("victim2", "victi", "victimx", "victim.bak"):
            os.mkdir(os.path.join(w, n))
            with open(os.path.join(w, n, "f"), "w") as f:
                f.write("keep")
        mode = rng.random()
        stuck, many = False, 0
        target = "victim"
        if mode < .85:
            os.mkdir(vic)
            if rng.random() < .1:
                many = rng.randint(100, 700)
                for q in range(many):
                    open(os.path.join(vic, "f%d" % q), "w").close()
            if rng.random() < .1:
                deep = vic
                for q in range(rng.randint(20, 60)):
                    deep = os.path.join(deep, "d" * rng.choice([1, 5, 30]))
                    if len(deep) > 3000:
                        break
                    os.mkdir(deep)
            stuck = populate(rng, vic, out, 0, [rng.choice([3, 20, 60])], rng.random() < .3)
        elif mode < .9:
            target = rng.choice(["nothere", "nothere/sub", "victim3"])
        elif mode < .95:
            target = "victim2/f"
        else:
            os.symlink("nowhere", vic)
            target = "victim"
        give(w)
        for d, dirs, files in os.walk(w):      # chown clears nothing relevant; modes of locked directories are kept
            pass
        if mode < .85:
            target = rng.choice(["victim", "./victim", "victim/", os.path.join(w, "victim"), "outside/../victim", "victim/."[:6]])
        before = snapshot(w)
        inside = [p for p in before if p == "victim" or p.startswith("victim/")]
        cmds = [["rmdir", target]]
        if rng.random() < .2:
            cmds.append(["rmdir", target])      # removing again: nothing left to do
        r = call(exes["asan" if k % 8 == 0 else "fast"], cmds, w, io)
        after = snapshot(w)
        what = "removing '%s' with %d entries%s" % (target if len(target) < 40 else "<absolute>", len(inside), ", some not removable" if stuck else "")
        replay = {"entries": sorted(inside)[:200], "links": {p: v[2] for p, v in before.items() if stat.S_ISLNK(v[0])}, "target": target}
        if r.crashed:
            ctx.violation("abnormal-end: " + r.signature(), "%s: %s" % (what, r.describe()), replay)
        else:
            for p, v in before.items():
                if p not in inside and after.get(p) != v:
                    ctx.violation("outside touched", "%s: %s was %s" % (what, p, "removed" if p not in after else "changed"), replay)
                    break
            new = [p for p in after if p not in before]
            if new:
                ctx.violation("something appeared", "%s: %s appeared" % (what, new[:3]), replay)
            rc = int(r.events[0].f[0])
            left = [p for p in after if p in inside]
            if mode >= .85:
                if after != before:
                    ctx.violation("removed something else", "%s, which is no directory, changed the file system" % what, replay)
            elif stuck:
                if rc == 0 and left:
                    ctx.violation("failure not reported", "%s: success reported, left: %s" % (what, left[:5]), replay)
            elif left or rc != 0:
                ctx.violation("not removed", "%s: returned %d, left: %s" % (what, rc, left[:5]), replay)
            if len(cmds) > 1 and not stuck and mode < .85 and r.events[1].f[0] != "0":
                ctx.violation("removing a missing directory", "%s: the second removal returned %s" % (what, r.events[1].f[0]), replay)
            if len(inside) > 1:
                ctx.case(("rm", k), {"removal": what, "links": len(replay["links"])} if len(inside) > 10 else None)
            ctx.bump(entries_removed=len(inside) - len(left), stuck_trees=int(stuck), links=len(replay["links"]))
        wipe(w)
        wipe(io)

    def creation(k):
        rng = random.Random("C22c/%d/%d" % (ctx.seed, k))
        w, io = ctx.mkdir("t"), ctx.mkdir("i")
        comp = ["a", "b", "res", "x.y", "d-1", ".h"]
        outer = rng.choice([None, "ex", "ex/in", "./ex", "a//b", "a/b/c/d"])
        resf = "/".join(rng.choice(comp) for _ in range(rng.randint(1, 4)))
        path = os.path.normpath(os.path.join(outer or "exdata", resf))
        # some of the components exist, with content; or are a file or a link to a directory
        parts = path.split("/")
        blocked = False
        for q in range(1, len(parts) + 1):
            if rng.random() < .5:
                break
            p = os.path.join(w, *parts[:q])
            u = rng.random()
            if u < .12:
                with open(p, "w") as f:
                    f.write("precious")
                blocked = q < len(parts)
                break
            if u < .25 and q < len(parts):
                t = os.path.join(w, "elsewhere%d" % q)
                os.mkdir(t)
                os.symlink(t, p)
            else:
                os.mkdir(p)
            with open(os.path.join(p, "keep"), "w") as f:
                f.write("precious %d" % q)
        give(w)
        before = snapshot(w)
        obs = rng.choice(["bbob", "toy", "rw", "bbob-biobj", "bbob-old"])
        su = "bbob-biobj" if obs == "bbob-biobj" else "bbob"
        opts = "result_folder: %s" % resf + (" outer_folder: %s" % outer if outer else "")
        if rng.random() < .5:
            opts = (" outer_folder: %s " % outer if outer else "") + "result_folder: %s" % resf
        cmds = [["observer", 0, obs, opts], ["suite", 0, su, "instances: 1", "dimensions: 2 function_indices: 1,2"]]
        ev = rng.random() < .6
        if ev:
            for f in (1, 2):
                cmds += [["getfdi", 0, 0, f, 2, 1], ["addobs", 0, 0], ["eval", 0, 1.0, 2.0], ["eval", 0, 0.5, 0.5], ["pfree", 0]]
        r = call(exes["asan" if k % 8 == 0 else "fast"], cmds, w, io)
        after = snapshot(w)
        what = "observer %s '%s' next to %s" % (obs, opts, sorted(before)[:6])
        replay = {"script": cmds, "before": sorted(before)}
        changed = [p for p in before if after.get(p) != before[p]]
        if changed:
            ctx.violation("existing data changed", "%s: %s was %s" % (what, changed[0], "removed" if changed[0] not in after else "changed"), replay)
        new = {p for p in after if p not in before}
        if blocked:
            if not (r.rc == 1 and "COCO FATAL ERROR" in r.err):
                ctx.violation("impossible folder", "%s: a component is a file, but no fatal error: %s" % (what, r.describe()), replay)
        elif r.crashed:
            ctx.violation("abnormal-end: " + r.signature(), "%s: %s" % (what, r.describe()), replay)
        else:
            got = os.path.normpath(r.events[0].f[1])
            real = os.path.relpath(os.path.realpath(os.path.join(w, got)), os.path.realpath(w))
            anc = {real}
            q = real
            while os.path.dirname(q):
                q = os.path.dirname(q)
                anc.add(q)
            q = got
            while q:
                anc.add(os.path.relpath(os.path.realpath(os.path.join(w, q)), os.path.realpath(w)))
                q = os.path.dirname(q)
            alien = [p for p in new if p not in anc and not p.startswith(real + "/")]
            if alien:
                ctx.violation("something else created", "%s: %s appeared, result folder %s" % (what, alien[:3], got), replay)
            if not os.path.isdir(os.path.join(w, got)) or real in before:
                ctx.violation("result folder", "%s: the folder %s %s" % (what, got, "existed before" if real in before else "does not exist"), replay)
            if got != path and not got.startswith(path + "-"):
                ctx.violation("result folder name", "%s: folder %s" % (what, got), replay)
            ctx.bump(directories_created=len([p for p in new if stat.S_ISDIR(after[p][0])]))
        ctx.case(("mk", k), {"creation": what[:200]} if before else None)
        wipe(w)
        wipe(io)

    ctx.par(removal, range(600 if ctx.quick else 8000))
    ctx.par(creation, range(300 if ctx.quick else 4000))
    ctx.extra["unprivileged_user"] = root
