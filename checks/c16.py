"""Random API programs and hostile strings under AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and MemorySanitizer."""
import random, re
import gen

ALPHA = 'abc %:"0123456789,-_\\/%s%né.'


def junk(rng, n):
    return "".join(rng.choice(ALPHA) for _ in range(rng.randint(0, n)))


def mutate(rng, s):
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        k = rng.randint(0, len(s))
        u = rng.random()
        if u < 0.25 and s:
            s = s[:k] + s[k + rng.randint(1, 4):]
        elif u < 0.5:
            s = s[:k] + junk(rng, 6) + s[k:]
        elif u < 0.6:
            s = s[:k] + rng.choice(["%s%s%n", "%d", "-", ",", ",,", ":", " : ", '"', "999999999999999999999", "-5", "1-", "0", "1e400", "nan"]) + s[k:]
        elif u < 0.7:
            s = s + " " + s[k:]
        elif u < 0.78:
            s = s[:k] + rng.choice("ax1, -") * rng.choice([300, 600, 1100, 5000]) + s[k:]
        elif u < 0.85:
            s = s.upper() if rng.random() < 0.5 else s[::-1]
    return s


def observer_options(rng):
    o = ["result_folder: R"]
    add = lambda p, t: o.append(t) if rng.random() < p else None
    add(0.3, 'algorithm_info: "%s"' % junk(rng, 600).replace('"', ""))
    add(0.3, "algorithm_name: " + "n" * rng.randint(1, 700))
    add(0.3, "number_target_triggers: %d number_evaluation_triggers: %d" % (rng.choice([0, 1, 7, 100, 1000]), rng.choice([0, 4, 5, 50])))
    add(0.3, 'base_evaluation_triggers: "%s"' % rng.choice(["1,2,5", "3", "a", "", "1-4", "7,3"]))
    add(0.3, "log_target_precision: %g lin_target_precision: %g" % (10 ** rng.uniform(-12, 2), 10 ** rng.uniform(-9, 2)))
    add(0.3, "precision_x: %d precision_f: %d precision_g: %d log_discrete_as_int: %d" % tuple(rng.randint(0, 33) for _ in range(4)))
    add(0.3, "log_nondominated: %s log_decision_variables: %s compute_indicators: %d produce_all_data: %d" % (
        rng.choice(["none", "final", "all"]), rng.choice(["none", "all", "low_dim"]), rng.randint(0, 1), rng.randint(0, 1)))
    add(0.3, "log_variables: %s log_constraints: %s log_time: %d log_only_better: %d" % (
        rng.choice(["none", "all", "low_dim"]), rng.choice(["none", "all"]), rng.randint(0, 1), rng.randint(0, 1)))
    add(0.1, "outer_folder: " + "/".join(["o" * rng.randint(1, 120) for _ in range(rng.randint(1, 5))]))
    rng.shuffle(o)
    return " ".join(o)


def suite_cmd(rng, slot, big=True):
    suite = rng.choice(list(gen.SUITES))
    n, first, ds, _, _ = gen.SUITES[suite]
    d = rng.choice([d for d in ds if d <= 20])
    inst = rng.choice(["NULL", "", "instances: %d" % rng.randint(1, 120), "instances:1-3,%d" % rng.randint(4, 90), "instances: 3 , 2"])
    if big and rng.random() < .15:
        inst = "instances: " + ",".join(str(rng.randint(1, 30)) for _ in range(rng.randint(300, 900)))
    if rng.random() < .1:
        inst = "instances: 1 %s: 4" % junk(rng, 30)
    if rng.random() < .03:      # at and beyond the permitted number of instances
        a, b = rng.choice([(1, 998), (1, 999), (1, 1000), (1, 1001), (2, 1500), (7, 1006), (7, 1007), (1, 100000)])
        inst = "instances: %d-%d%s" % (a, b, rng.choice(["", "", ",3", ",3-4,900", ",1-"]))
    fs = sorted({rng.randint(1, n) for _ in range(rng.randint(1, 3))})
    opts = "dimensions: %d function_indices: %s" % (d, ",".join(map(str, fs)))
    if rng.random() < .2:
        opts += " %s: %s" % (junk(rng, 300), junk(rng, 20))
    if rng.random() < .2:
        opts += " instance_indices: 1-2"
    return suite, d, [first - 1 + f for f in fs], ["suite", slot, suite, inst, opts]


def program(rng):
    """a program that follows the documentation"""
    c, S = [], []
    for k in range(rng.choice([1, 1, 1, 2, 3])):
        suite, d, fs, cmd = suite_cmd(rng, k)
        c.append(cmd)
        bi = "biobj" in suite
        obs = rng.choice(["bbob-biobj", "bbob-biobj", "rw", "toy"] if bi else ["bbob", "bbob", "rw", "toy", "bbob-old"])
        if suite == "toy":
            obs = rng.choice(["bbob", "toy", "rw"])
        if obs == "bbob-old" and any(t[3] == obs for t in S):
            obs = "rw"      # the old logger supports one open problem in the whole process
        c.append(["observer", k, obs, observer_options(rng)])
        S.append((suite, d, fs, obs))
    live = {}

    def use(p, k, observed, n=None):
        suite, d, fs, obs = S[k]
        for _ in range(rng.randint(0, 8) if n is None else n):
            u = rng.random()
            # written as int, a value must fit (a fatal error otherwise)
            as_int = any("log_discrete_as_int" in t for q in c for t in q if isinstance(t, str))
            x = [float(v) for v in gen.point(rng, d, 1e5 if as_int else None)]
            if u < .6:
                c.append(["eval", p] + x)
            elif u < .7 and "constr" in suite:
                c.append(["cons", p] + x)
            elif u < .78 and obs in ("bbob", "bbob-biobj"):
                c.append(["rec", p] + x)
            elif u < .84 and observed and obs in ("bbob", "bbob-biobj"):
                c.append(["restart", k, p])
            elif u < .9:
                c.append(["state", p])
            elif u < .93 and suite != "toy":
                c.append(["info", p])
            elif u < .96:
                c.append(["eval", p] + [rng.choice([float("nan"), float("inf"), 1.0]) for _ in range(d)])
    style = rng.random()
    if style < 0.45:
        k = rng.randrange(len(S))
        for _ in range(rng.randint(0, 5)):
            ob = k if rng.random() < .9 else -1
            c += [["next", 0, k, ob], ["state", 0]]
            use(0, k, ob == k)
    else:
        free = list(range(8))
        observed = {}
        for _ in range(rng.randint(1, 14)):
            u = rng.random()
            if (u < 0.4 or not live) and free:
                k = rng.randrange(len(S))
                p = free.pop()
                c.append(["getfdi", p, k, rng.choice(S[k][2]), S[k][1], rng.choice([1, 1, 2, 3])])
                live[p] = [k, 0]
            elif u < 0.55:
                p = rng.choice(list(live))
                k = live[p][0]
                if live[p][1] == 0 and k not in observed.values():
                    c.append(["addobs", p, k])
                    live[p][1] = 1
                    observed[p] = k
            elif u < 0.65:
                p = rng.choice(list(live))
                if live[p][1] == 1:
                    c.append(["rmobs", p, live[p][0]])
                    live[p][1] = 0
                    observed.pop(p, None)
            elif u < 0.75:
                p = rng.choice(list(live))
                c.append(["pfree", p])
                del live[p]
                observed.pop(p, None)
                free.append(p)
            else:
                p = rng.choice(list(live))
                use(p, live[p][0], live[p][1] == 1)
        if rng.random() < 0.6:
            for p in list(live):
                c.append(["pfree", p])
    for k in range(len(S)):
        if rng.random() < 0.2:
            c += [["archive", k, rng.choice(gen.BIOBJ[:2]), rng.randint(1, 55), 2, rng.randint(1, 12)]]
            c += [["aadd", k, rng.uniform(-100, 1000), rng.uniform(-100, 1000), junk(rng, 40).replace("\\", "")] for _ in range(rng.randint(0, 30))]
            c += [["anum", k], ["atexts", k], ["ahv", k]]
        if rng.random() < 0.2:
            c += [["rng", k, rng.randrange(2 ** 32)], ["rngu", k, 20], ["rngn", k, 20]]
    tail = [[t, k] for k in range(len(S)) for t in ("obsfree", "suitefree")]
    rng.shuffle(tail)
    if any(p in live for p in live):
        tail = [t for t in tail if t[0] != "suitefree"] if rng.random() < 0.5 else []
        if tail:      # problems outlive their observer: freeing them later must work
            c += tail
        return c
    return c + tail


def hostile(rng):
    """the same kind of program, but with damaged strings and indices"""
    suite, d, fs, cmd = suite_cmd(rng, 0, False)
    cmd = cmd[:2] + [mutate(rng, s) if rng.random() < p else s for s, p in zip(cmd[2:], (0.15, 0.6, 0.6))]
    obs = rng.choice(["bbob", "bbob-biobj", "rw", "toy", "bbob-old", "no_observer", "bbob-mixint", "x"])
    if rng.random() < 0.2:
        obs = mutate(rng, obs)
    oo = mutate(rng, observer_options(rng))
    clean = lambda s: str(s).replace("\t", " ").replace("\n", " ")
    # file system paths stay below the scratch directory
    oo = re.sub(r"(folder|file_name)\s*:\s*\S*", lambda m: m.group(1) + ": R", oo)
    if re.search(r"(result_folder|outer_folder|file_name)", oo) and (".." in oo or "/" in oo):
        oo = oo.replace("..", "_").replace("/", "_")
    c = [[clean(v) if isinstance(v, str) else v for v in cmd], ["observer", 0, clean(obs), clean(oo)], ["lists", 0], ["enumidx", 0, 3 if suite == "bbob-biobj-mixint" else 12]]
    for _ in range(rng.randint(1, 3)):
        u = rng.random()
        if u < 0.4:
            c.append(["next", 0, 0, 0])
        elif u < 0.7:
            c += [["getp", 1, 0, rng.choice([0, 1, 5, 10 ** 6, 2 ** 31, 2 ** 63])], ["pfree", 1]]
        else:
            c += [["getfdi", 1, 0, rng.choice(fs + [0, 1, 1000]), rng.choice([d, 0, 1, 10 ** 6]), rng.choice([0, 1, 2, 99])], ["pfree", 1]]
    for i in (0, 3, 10 ** 6):
        c.append(["decode", 0, i])
    c.append(["encode", 0, rng.randint(0, 3), rng.randint(0, 3), rng.randint(0, 3)])
    c += [["state", 0]]
    if rng.random() < 0.3:
        c = [["strdupf", rng.choice([0, 10, 510, 511, 512, 513, 2000, 5000])]] + c
    return c


def run(ctx):
    ctx.rule = ("one case = one random API program (several suites, observers, problems, archives and generators alive at once, freed in random order) or one program with damaged "
                "strings and indices, run under ASan+UBSan+LSan or MSan; distinct by program; non-trivial = the program got past its constructors or was refused with a message")
    asan, msan = ctx.build("cut:asan", "cut:msan")
    n = 900 if ctx.quick else 20000

    def one(k):
        rng = random.Random("C16/%d/%d" % (ctx.seed, k))
        bad = k % 3 == 2
        c = hostile(rng) if bad else program(rng)
        bad = bad or any(x[0] == "suite" and re.match(r"instances: \d-\d{3}", str(x[3])) for x in c)      # may exceed the permitted number
        exe = msan if k % 4 == 1 else asan
        lvl = rng.choice(["warning", "error", "info", "debug"])
        r = ctx.run(exe, c, timeout=100, retry=not bad, loglevel=lvl, env={"ASAN_OPTIONS": "exitcode=86:detect_leaks=1:detect_stack_use_after_return=1:handle_abort=1"})
        ctx.bump(**{"programs_msan" if exe == msan else "programs_asan": 1})
        if r.crashed:
            fatal = re.search(r"COCO FATAL ERROR: ", r.err) and r.rc in (1, 86, 87) and "runtime error" not in r.err and \
                not re.search(r"ERROR: AddressSanitizer|MemorySanitizer", r.err)      # what is still allocated when the library gives up is no leak
            if bad and fatal:
                ctx.case(k)
                return ctx.bump(refused_with_fatal_error=1)
            if bad and r.timeout:
                # absurdly large but valid requests
                return ctx.bump(timed_out_hostile=1)
            ctx.violation("abnormal-end: " + r.signature(), "%s; program of %d calls" % (r.describe(), len(c)), {"script": c, "variant": "msan" if exe == msan else "asan", "loglevel": lvl})
            return
        ctx.case(k, {"calls": [x[0] for x in c][:30]} if len(c) > 25 else None)
        ctx.bump(calls=len(r.events), clean_ends=1, hostile=int(bad))

    ctx.par(one, range(n))
