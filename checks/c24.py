"""Options and diagnostics: an option string means what it says however it is written, and messages obey the log level."""
import os, random, re
import bbobmodel as bm, gen

OBS = {"bbob": ["bbob", "bbob-mixint", "bbob-constrained"], "bbob-biobj": ["bbob-biobj", "bbob-biobj-mixint"], "rw": ["bbob-constrained", "bbob-biobj", "bbob-mixint"], "toy": ["bbob"],
       "bbob-constrained": ["bbob-constrained"], "bbob-mixint": ["bbob-mixint"], "bbob-biobj-mixint": ["bbob-biobj-mixint"]}
WORDS = ["ALG7", "x", "my-algo_v2", "precision_x", "a,b;c=1", "result_folder", "log_nondominated", "100", "prefix", "A" * 80]
TEXTS = ["an info", "with: colons and precision_x: 2 too", "result_folder: Z algorithm_name: W", "log_nondominated: none number_target_triggers: 1", "  padded  ", "1-5", "a 'single' quote", "-x flag", "#1", "%d%s%n", "0", "\\back\\slash", "x" * 300]

# key -> (values in range, default, values out of range); a default of None is not written out
COMMON = {
    "algorithm_name": (WORDS, "ALG", []),
    "algorithm_info": (TEXTS, None, []),
    "number_target_triggers": (["1", "2", "5", "10", "333"], "100", ["0"]),
    "log_target_precision": (["1e-1", "0.001", "3e-6", "1e-10"], "1e-8", ["0", "-1", "-1e-8"]),
    "lin_target_precision": (["1", "0.01", "250", "1e5"], "1e-5", ["0", "-1", "1e-13"]),
    "number_evaluation_triggers": (["4", "50"], "20", ["0", "3"]),
    "base_evaluation_triggers": (["1", "3,7", "1,2,3,4,5,6,7,8,9", "4"], "1,2,5", []),
    "precision_x": (["1", "2", "5", "16", "32"], "8", ["0", "-3", "33", "1000"]),
    "precision_f": (["1", "2", "5", "16", "32"], "15", ["0", "-3", "33", "1000"]),
    "precision_g": (["1", "2", "5", "16", "32"], "3", ["0", "-3", "33", "1000"]),
    "log_discrete_as_int": (["1"], "0", ["-1", "2", "7"]),
}
SPECIAL = {
    "bbob": {"prefix": (["pre", "a_b", "precision_f"], "bbobexp", [])},
    "bbob-biobj": {"log_nondominated": (["none", "final"], "all", []), "log_decision_variables": (["none", "all"], "low_dim", []),
                   "compute_indicators": (["0"], "1", []), "produce_all_data": (["1"], "0", [])},
    "rw": {"log_variables": (["none", "low_dim"], "all", []), "log_constraints": (["none", "low_dim"], "all", []), "low_dim_vars": (["1", "2", "4", "20"], "10", []),
           "low_dim_cons": (["0", "1", "2", "30"], "10", []), "log_only_better": (["1"], "0", [])},
    "toy": {"file_name": (["hits.txt", "precision_f"], "first_hitting_times.dat", [])},
}
SPECIAL["bbob-constrained"] = SPECIAL["bbob-mixint"] = SPECIAL["bbob"]
SPECIAL["bbob-biobj-mixint"] = SPECIAL["bbob-biobj"]
STRINGS = {"algorithm_name", "algorithm_info", "base_evaluation_triggers", "prefix", "log_nondominated", "log_decision_variables", "log_variables", "log_constraints", "file_name",
           "result_folder", "outer_folder"}
UNKNOWN = ["my_precision_x", "x-precision_f", "precision_xx", "algorithm_names", "no_such_option", "log", "prefix2", "v2prefix", "precision", "_result_folder", "the-algorithm_name"]


def quoted(k, v, rng, force=False):
    if k in STRINGS and (force or " " in v or rng.random() < .4):
        return '"%s"' % v
    return v


def canonical(pairs):
    return " ".join("%s: %s" % (k, '"%s"' % v if " " in v else v) for k, v in pairs)


def written(rng, pairs):
    """the same options in another order, with other spaces and quotes and among unknown options"""
    ps, extra = list(pairs), []
    for u in rng.sample(UNKNOWN, rng.choice([0, 0, 1, 2])):
        extra.append(u)
        ps.append((u, rng.choice(["3", "abc", "precision_x", "algorithm_name"] + ['"%s"' % t for t in TEXTS])))
    rng.shuffle(ps)
    out = [rng.choice(["", "", " ", "   "])]
    for k, v in ps:
        v = v if k in extra else quoted(k, v, rng)
        out.append(k + rng.choice(["", "", " ", "  "]) + ":" + rng.choice(["", " ", " ", "    ", "\t"]) + v + rng.choice([" ", " ", " ", "  ", "     ", "\t", "\n", " \n  "]))
    s = "".join(out)
    return (s if rng.random() < .3 else s.rstrip()), extra


def program(ctx, ref, rng, suite, dims):
    d = rng.choice(dims)
    fs = rng.sample(gen.functions(suite), 2)
    fs.sort()
    cmds, exact = [], True
    for f in fs:
        opt = None
        if rng.random() < .4:      # down to the optimum, below the default precision of the targets
            r = ctx.run(ref, [["suite", 0, suite, "instances: 1", "dimensions: %d" % d], ["getfdi", 0, 0, f, d, 1], ["best", 0]])
            if not r.crashed and r.events[2].f[0] == "1":
                opt = r.events[2].nums(1)
        cmds += [["getfdi", 0, 0, f, d, 1], ["addobs", 0, 0]]
        rad, c = 3.0, [rng.uniform(-3, 3) for _ in range(d)]
        if opt:
            e, exact = 1.0, False      # (round-off decides which of these lines are logged)
            while e > 1e-14:
                e *= rng.choice([.7, .2, .05])
                cmds.append(["eval", 0] + [v + rng.choice([-1, 1]) * e for v in opt])
            cmds.append(["eval", 0] + opt)
        for _ in range(0 if opt else rng.choice([3, 25, 40])):
            rad *= .85
            cmds.append(["eval", 0] + [round(v + rng.gauss(0, 1) * rad, rng.choice([3, 12])) for v in c])
            if "constrained" in suite and rng.random() < .1:
                cmds.append(["cons", 0] + c)
        cmds.append(["pfree", 0])
    return d, cmds, exact


def warnings(r):
    return re.findall(r"COCO WARNING: (.*?)(?=COCO WARNING: |COCO FATAL|\Z)", r.err, re.S)


def approx(a, b):
    """same text, but for the last digits of numbers"""
    if a == b:
        return True
    ta, tb = re.split(r"([-+]?\d+\.\d+(?:e[-+]?\d+)?)", a), re.split(r"([-+]?\d+\.\d+(?:e[-+]?\d+)?)", b)
    if len(ta) != len(tb) or ta[::2] != tb[::2]:
        return False
    for p, q in zip(ta[1::2], tb[1::2]):
        if p != q and (len(p.split("e")[0]) != len(q.split("e")[0]) or abs(float(p) - float(q)) > 1e-6 * (1 + max(abs(float(p)), abs(float(q)))) + .6 * 10 ** (int(p.partition("e")[2] or 0) - len(p.split("e")[0].lstrip("+-")) + 2)):
            return False
    return True


def difference(a, b, same=lambda p, q: p == q):
    for n in sorted(set(a) | set(b)):
        if n not in a or n not in b:
            return "%s only in the %s" % (n, "first" if n in a else "second")
        la, lb = a[n].split("\n"), b[n].split("\n")
        for k in range(max(len(la), len(lb))):
            p, q = (la[k] if k < len(la) else None), (lb[k] if k < len(lb) else None)
            if p is None or q is None or not same(p, q):
                return "%s line %d: %r and %r" % (n, k + 1, p and p[:200], q and q[:200])
    return None


def run(ctx):
    ctx.rule = ("one case = one experiment run under the canonical spelling of a random set of observer options and under another spelling (order, spaces, quotes, unknown options around, "
                "defaults written out, values out of range added): same result tree, same as the reference build up to the last digits, warnings as due; or one program run at all log levels; "
                "distinct by (observer, suite, options); non-trivial = at least one option other than the folder, or one message")
    fast, asan, ref = ctx.build("cut:fast", "cut:asan", "ref:fast")
    n = 110 if ctx.quick else 1200
    jobs = [(o, s, k) for o in OBS for s in OBS[o] for k in range(n)]

    def one(job):
        o, s, rep = job
        rng = random.Random("C24/%d/%s/%s/%d" % (ctx.seed, o, s, rep))
        table = dict(COMMON)
        table.update(SPECIAL[o])
        d, body, exact = program(ctx, ref, rng, s, [x for x in gen.dims(s) if x <= 10])
        folder, outer = rng.choice(["R", "a-b_c", "precision_x", "deep/er/R", "result_folder"]), rng.choice([None, None, None, "out", "precision_g", "o/p"])
        keys = [k for k in table if rng.random() < rng.choice([.15, .4])]
        pairs = [("result_folder", folder)] + ([("outer_folder", outer)] if outer else []) + [(k, rng.choice(table[k][0])) for k in keys]
        if ("log_nondominated", "none") in pairs:      # an observer that is to record nothing says so
            pairs = [p for p in pairs if p[0] != "compute_indicators"]
        rest = [k for k in table if k not in keys]
        more, bad = [], []
        mode = rng.choice(["spell", "spell", "defaults", "range"])
        if mode == "defaults":
            more = [(k, table[k][1]) for k in rng.sample(rest, min(len(rest), rng.randint(1, 4))) if table[k][1] is not None]
        elif mode == "range":
            bad = [(k, rng.choice(table[k][2])) for k in rest if table[k][2] and rng.random() < .4]
        other, extra = written(rng, pairs + more + bad)
        ca = [["suite", 0, s, "instances: 1", "dimensions: %d" % d]]
        canon = canonical(pairs)
        sa, sb = ca + [["observer", 0, o, canon]] + body, ca + [["observer", 0, o, other]] + body
        r1, r2, r3 = ctx.run(fast, sa, keep=True), ctx.run(asan if rep % 12 == 0 else fast, sb, keep=True), ctx.run(ref, sa, keep=True)
        what = "%s observer %s: '%s' and '%s'" % (s, o, canon, other)
        try:
            if not (ctx.legit(r1, what, sa) and ctx.legit(r2, what, sb)):
                return
            t1, t2, t3 = bm.read_tree(r1.dir), bm.read_tree(r2.dir), bm.read_tree(r3.dir)
            dd = difference(t1, t2)
            if dd:
                ctx.violation("spelling of options (%s)" % mode, "%s give different results: %s" % (what, dd), {"script": sa, "other": sb})
            elif [e.f for e in r1.events[2:]] != [e.f for e in r2.events[2:]]:
                ctx.violation("options change values", "%s give different values" % what, {"script": sa, "other": sb})
            dd = difference(t1, t3, approx)
            if dd and exact and not r3.crashed:
                ctx.violation("effect of options", "%s observer %s: '%s' and the same on the reference build: %s" % (s, o, canon, dd), {"script": sa})
            # the folder that was asked for
            want = os.path.join(outer or "exdata", folder)
            if not os.path.isdir(os.path.join(r2.dir, want)) or any(os.path.relpath(p, want).startswith("..") for p in t2):
                ctx.violation("folder", "%s: results in %s, expected all in %s" % (what, sorted(t2)[:5], want), {"script": sb})
            # diagnostics
            # (a warning about something else, such as an unknown reference value, is not about options)
            w1 = warnings(r1)
            about = [w for w in w1 if re.search(r"ignored|option|key", w)]
            if about:
                ctx.violation("warning without reason", "%s observer %s '%s': %s" % (s, o, canon, about), {"script": sa})
            left = [w for w in warnings(r2) if w not in w1]
            for k, v in bad:
                hit = [w for w in left if re.search(r"(?<![\w-])%s(?![\w-])" % re.escape(k), w) and "Valid keys" not in w]
                if not hit:
                    ctx.violation("no warning for a value out of range", "%s observer %s '%s': no warning names %s: %s" % (s, o, other, k, v), {"script": sb})
                left = [w for w in left if w not in hit]
            if extra:
                hit = [w for w in left if all(re.search(r"(?<![\w-])%s(?![\w-])" % re.escape(u), w.split("Valid keys")[0]) for u in extra)]
                if not hit:
                    ctx.violation("unknown option not reported", "%s observer %s '%s': %s not reported in %r" % (s, o, other, extra, left), {"script": sb})
                elif any(re.search(r"(?<![\w-])%s(?![\w-])" % re.escape(k), hit[0].split("Valid keys")[0].split("\n", 1)[-1]) for k, _ in pairs + more + bad if k not in extra):
                    ctx.violation("known option reported as unknown", "%s observer %s '%s': %r" % (s, o, other, hit[0]), {"script": sb})
                left = [w for w in left if w not in hit]
            if left:
                ctx.violation("warning without reason", "%s observer %s '%s': %r" % (s, o, other, left), {"script": sb})
            if len(pairs) > 1 or bad or more or extra:
                ctx.case((o, s, canon, other), {"canonical": canon, "other": other, "files": len(t1)} if len(pairs) > 4 else None)
            ctx.bump(files_compared=len(t1) * 2, option_values=len(pairs), values_out_of_range=len(bad), defaults_written=len(more), unknown_options=len(extra))
        finally:
            ctx.drop(r1, r2, r3)
    ctx.par(one, jobs)

    # suite options: spelling and unknown keys
    def suites(k):
        rng = random.Random("C24s/%d/%d" % (ctx.seed, k))
        s = rng.choice([x for x in gen.SUITES if x != "toy"])
        ds = sorted(rng.sample([x for x in gen.dims(s) if x <= 40], 2))
        nf = gen.SUITES[s][0]
        fi = sorted(rng.sample(range(1, nf + 1), rng.randint(1, 4)))
        ins = sorted(rng.sample(range(1, 16), rng.randint(1, 3)))
        ii = sorted(rng.sample(range(1, len(ins) + 1), rng.randint(1, len(ins))))
        po = [("dimensions", ",".join(map(str, ds))), ("function_indices", ",".join(map(str, fi)))] + ([("instance_indices", ",".join(map(str, ii)))] if rng.random() < .5 else [])
        inst = [("instances", ",".join(map(str, ins)))]

        def spell(pairs, names):
            ps, extra = list(pairs), rng.sample(names, rng.choice([0, 0, 1, 2]))
            ps += [(u, rng.choice(["1", "2-3", "2"])) for u in extra]
            rng.shuffle(ps)
            return rng.choice([" ", " ", "\t", "\n", " \n "]).join(a + rng.choice(["", " "]) + ":" + rng.choice(["", " ", "   ", "\t"]) + b.replace(",", rng.choice([",", ",", " , ", ", ", ",\t", ",\n"])) for a, b in ps), extra
        to, eo = spell(po, ["my_dimensions", "dimension", "function", "xfunction_indices", "year_dimensions", "sub-function_indices", "instances"])
        ti, ei = spell(inst, ["my_year", "xinstances", "old-instances", "years", "no_such"])
        walk = [["next", 0, 0], ["info", 0, "notype"]] * (len(ds) * len(fi) * len(ins))
        a = [["suite", 0, s, "instances: " + inst[0][1], " ".join("%s: %s" % p for p in po)]] + walk
        b = [["suite", 0, s, ti, to]] + walk
        ra, rb = ctx.run(fast, a), ctx.run(fast, b)
        what = "suite %s '%s' '%s'" % (s, ti, to)
        if not (ctx.legit(ra, what, a) and ctx.legit(rb, what, b)):
            return
        if [e.f for e in ra.events[1:]] != [e.f for e in rb.events[1:]]:
            ctx.violation("spelling of suite options", "%s gives other problems than %s" % (what, a[0][3:]), {"script": b})
        if warnings(ra):
            ctx.violation("warning without reason", "%s: %r" % (a[0], warnings(ra)), {"script": a})
        w = " ".join(x.split("Valid keys")[0] for x in warnings(rb))
        for u in eo + ei:
            if not re.search(r"(?<![\w-])%s(?![\w-])" % re.escape(u), w):
                ctx.violation("unknown suite option not reported", "%s: %s not in %r" % (what, u, w), {"script": b})
        if not eo + ei and w:
            ctx.violation("warning without reason", "%s: %r" % (what, w), {"script": b})
        ctx.case(("suite", s, ti, to))
        ctx.bump(suite_option_strings=1, unknown_suite_options=len(eo + ei))
    ctx.par(suites, range(150 if ctx.quick else 2000))

    # log levels
    LEV = ["error", "warning", "info", "debug"]

    def level(k):
        rng = random.Random("C24l/%d/%d" % (ctx.seed, k))
        o = rng.choice(["bbob", "bbob-biobj", "rw", "toy"])
        s = rng.choice(OBS[o])
        d, body, exact = program(ctx, ref, rng, s, [x for x in gen.dims(s) if x <= 10])
        walk = [["next", 1, 0], ["next", 1, 0], ["next", 1, 0]]
        opts = rng.choice(["", " precision_x: 0", " no_such: 1", " number_target_triggers: 0 xyz: 3", " precision_f: 99 precision_g: 0"])
        sopts = rng.choice(["", " foo: 3", " function_indices: 1-3 bar: 2"])
        prog = [["suite", 0, s, "instances: 1", "dimensions: %d%s" % (d, sopts)], ["observer", 0, o, "result_folder: R" + opts]] + body + walk
        if rng.random() < .5:
            prog += [["getfdi", 2, 0, 9999, d, 1]]
        out = {}
        for l in LEV:
            r = ctx.run(fast, prog, loglevel=l, keep=True)
            if not ctx.legit(r, "log level %s" % l, prog):
                ctx.drop(r)
                return
            w = warnings(r)
            info = [x for x in r.out.split("\n") if x.startswith("COCO INFO")]
            debug = [x for x in r.out.split("\n") if x.startswith("COCO DEBUG")]
            rest = r.out
            out[l] = (w, info, debug, rest, [e.f for e in r.events], bm.read_tree(r.dir))
            ctx.drop(r)
        time = lambda x: re.sub(r"\d\d:\d\d:\d\d|\d+[hms]\S*|\d\d\.\d\d\.\d\d", "#", x)
        what = "observer %s '%s', suite %s '%s'" % (o, opts, s, sopts)

        def bad(key, text):
            ctx.violation(key, "%s: %s" % (what, text), {"script": prog})
        if out["error"][0]:
            bad("warning at level error", repr(out["error"][0]))
        for l in ("error", "warning"):
            if out[l][3].strip():
                bad("message at level " + l, repr(out[l][3][:300]))
        if out["info"][2]:
            bad("debug message at level info", repr(out["info"][2][:3]))
        if (opts or sopts) and not out["warning"][0]:
            bad("no warning at level warning", "")
        for l in ("info", "debug"):
            if out[l][0] != out["warning"][0]:
                bad("warnings at level " + l, "%r, at level warning %r" % (out[l][0], out["warning"][0]))
            if not any("exdata" in x for x in out[l][1]):
                bad("no message about the folder at level " + l, repr(out[l][3][:300]))
        if not out["debug"][2] and o == "bbob":
            bad("no debug message at level debug", "")
        nodebug = [x for x in out["debug"][3].split("\n") if not x.startswith("COCO DEBUG")]
        if len(out["info"][1]) > len(nodebug):
            bad("fewer messages at level debug", "")
        for l in LEV[1:]:
            if out[l][4] != out["error"][4]:
                bad("values depend on the log level", l)
            dd = difference(out["error"][5], out[l][5])
            if dd:
                bad("results depend on the log level", "%s: %s" % (l, dd))
        ctx.case(("level", o, s, opts, sopts, k), {"levels": {l: [len(out[l][q]) for q in (0, 1, 2)] for l in LEV}} if opts else None)
        ctx.bump(warnings_seen=len(out["debug"][0]), info_seen=len(out["info"][1]), debug_seen=len(out["debug"][2]))
    ctx.par(level, range(60 if ctx.quick else 500))

    # the previous level is returned, and a change takes effect at once
    def switch(k):
        rng = random.Random("C24w/%d/%d" % (ctx.seed, k))
        cur, prog, want, warned = rng.choice(LEV), [], [], 0
        start = cur
        for q in range(40):
            if rng.random() < .5:
                new = rng.choice(LEV + ["", "nonsense"])
                prog.append(["loglevel", new])
                want.append((len(prog) - 1, cur))
                if new in LEV:
                    cur = new
                elif new == "nonsense" and LEV.index(cur) >= 1:
                    warned += 1
            else:
                prog.append(["suite", 0, "bbob", "instances: 1", "dimensions: 2 mark%d: 1" % q])
                want.append((q, cur))
        r = ctx.run(fast, prog, loglevel=start)
        if not ctx.legit(r, "log level changes", prog):
            return
        for i, l in want:
            e = r.events[i]
            if e.cmd == "loglevel":
                if e.f[0] != l:
                    ctx.violation("previous level", "command %d returned %r, the level was %r" % (i, e.f, l), {"script": prog, "start": start})
            elif (("mark%d\n" % i) in r.err) != (l != "error"):
                ctx.violation("level not in force", "a warning at level %s was %s" % (l, "shown" if l == "error" else "not shown"), {"script": prog, "start": start})
        ctx.case(("switch", k))
        ctx.bump(level_switches=sum(1 for c in prog if c[0] == "loglevel"))
    ctx.par(switch, range(40 if ctx.quick else 400))
