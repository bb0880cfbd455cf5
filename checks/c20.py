"""The Python package against the C core: the same history through both, with misuse in between; and pure misuse under ASan."""
import json, os, random, re, subprocess
import bbobmodel as bm, gen, obsopts, pybuild
from common import NCPU, SAN_ENV, VERIF, HarnessError, fl, hx

KNOWN = ["bbob", "bbob-biobj", "bbob-biobj-ext", "bbob-boxed", "bbob-constrained", "bbob-largescale", "bbob-mixint", "bbob-biobj-mixint", "bbob-noisy"]
INFO = ("(p{0}.id, p{0}.name, p{0}.dimension, p{0}.number_of_variables, p{0}.number_of_objectives, p{0}.number_of_constraints, p{0}.number_of_integer_variables, p{0}.index,"
        " p{0}.lower_bounds, p{0}.upper_bounds, p{0}.initial_solution, p{0}.largest_fvalues_of_interest, p{0}.is_observed, len(p{0}.observers), p{0}.id_triple, p{0}.suite)")
STATE = "(p{0}.evaluations, p{0}.evaluations_constraints, p{0}.final_target_hit%s)"


def num(v):
    """number of a canonical Python value"""
    return fl(v[1:]) if isinstance(v, str) and v[:1] == "#" else v


def same(a, b):
    return a == b or (a != a and b != b)


def serve(ctx, site, jobs, variant):
    """run the jobs in forked children of NCPU servers; fills in j["rc"], j["r"] (per op), j["ended"], j["stderr"]"""
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update(pybuild.env(variant, site))
    for j in jobs:
        io = ctx.mkdir("io")
        j["dir"] = ctx.mkdir("py")
        j["err"], j["events"] = os.path.join(io, "e"), os.path.join(io, "ev")

    def srv(part):
        if not part:
            return
        path = os.path.join(ctx.mkdir("srv"), "jobs")
        todo = [{k: j[k] for k in ("dir", "err", "events", "points", "ops")} for j in part]
        with open(path, "w") as f:
            json.dump(todo, f)
        p = subprocess.run([pybuild.VENV, "-W", "ignore", os.path.join(VERIF, "drv", "pydrv.py"), path], env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True)
        rcs = json.load(open(path + ".rc")) if os.path.exists(path + ".rc") else []
        if rcs.count(-14) > 1:
            for j in part[len(rcs):]:
                j["skip"] = True
            part = part[:len(rcs)]
        if p.returncode or len(rcs) != len(part):
            raise HarnessError("the Python server ended with %s: %s" % (p.returncode, p.stderr[-2000:]))
        for j, rc in zip(part, rcs):
            j["rc"] = rc
            j["stderr"] = open(j["err"], errors="replace").read() if os.path.exists(j["err"]) else ""
            j["r"], j["ended"], j["clean"], j["changed"] = [], False, False, []
            if os.path.exists(j["events"]):
                for line in open(j["events"]):
                    line = line.strip()
                    if line == '"END"':
                        j["ended"] = True
                    elif line == '"CLEAN"':
                        j["clean"] = True
                    else:
                        try:
                            e = json.loads(line)
                            j["changed" if "changed" in e else "r"].append(e)
                        except ValueError:
                            pass
    ctx.par(srv, [jobs[k::NCPU] for k in range(NCPU)])


def outcome(j):
    """None, or the way in which the interpreter was lost"""
    if j["rc"] == 0 and j["ended"] and j["clean"]:
        return None
    m = re.search(r"SUMMARY: (\S+: \S+)", j["stderr"])
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w*(?:coco|suite|transform|logger|mo_|observer|bbob|__pyx)\w*)", j["stderr"])
    if m:
        return "%s %s" % (m.group(1), ",".join(fr[:2]))
    m = re.search(r"COCO FATAL ERROR: (.*)", j["stderr"])
    if m and j["rc"] == 1:
        return "fatal: " + m.group(1)[:120]
    if j["rc"] == -14:
        return "hang"
    return "rc=%s %s" % (j["rc"], j["stderr"].strip()[-200:])


# ------------------------------------------------------------------ generated histories
class Gen:
    def __init__(self, rng, suites):
        self.rng, self.S = rng, suites       # suites: [(name, inst, opts, [(id, index, dim), ...])]
        self.pts, self.plan = [], []
        self.live, self.obs, self.freed = {}, {}, []
        self.np = self.no = 0
        self.cur = {}

    def pt(self, x):
        self.pts.append([hx(v) for v in x])
        return len(self.pts) - 1

    def add(self, py, c=(), check=None, exc=None):
        self.plan.append((py, [list(x) for x in c], check, exc))

    def spell(self, x):
        """one of several documented ways to pass a point"""
        k, d, r = self.pt(x), len(x), self.rng
        return r.choice(["pts[%d]" % k, "arr(%d)" % k, "tuple(pts[%d])" % k, "np.repeat(arr(%d), 2)[::2]" % k, "np.vstack([arr(%d)] * 2).T[:, 1]" % k,
                         "np.array(pts[%d], order='F')" % k, "list(arr(%d))" % k])

    # -- checks
    def c_suite(self, k):
        name, inst, opts, problems = self.S[k]

        def check(v, ev):
            got = [tuple(x) for x in zip(v[0], v[1])]
            want = [(p[0], p[1]) for p in problems]
            if got != want:
                d = next((i for i in range(max(len(got), len(want))) if got[i:i + 1] != want[i:i + 1]), 0)
                return "Suite.ids()/indices: %d problems, at position %d %s, the core has %d problems, there %s" % (len(got), d, got[d:d + 1], len(want), want[d:d + 1])
            if v[2] != len(want) or v[3] != sorted({p[2] for p in problems}) or v[4] != ([2] if "biobj" in name else [1]):
                return "len, dimensions, number_of_objectives = %s, but there are %d problems in %s" % (v[2:5], len(want), sorted({p[2] for p in problems}))
            if v[5:8] != [name, inst, opts]:
                return "name, instance, options = %s" % (v[5:8],)
            if len(v[8]) != len(want):
                return "%d problem names for %d problems" % (len(v[8]), len(want))
        return check

    def c_info(self, st):
        def check(v, ev):
            e = ev[-1].f
            d = int(e[3])
            if v[0] != e[0] or v[1] != e[1]:
                return "id/name %r / %r" % (v[:2], e[:2])
            ints = [int(e[3]), int(e[3]), int(e[4]), int(e[5]), int(e[6]), int(e[7])]
            if v[2:8] != ints:
                return "dimension, variables, objectives, constraints, integer variables, index %s / %s" % (v[2:8], ints)
            x = [fl(t) for t in e[8:]]
            for nm, a, b in (("lower_bounds", v[8], x[:d]), ("upper_bounds", v[9], x[d:2 * d]), ("initial_solution", v[10], x[2 * d:3 * d])):
                if len(a) != d or not all(same(num(p), q) for p, q in zip(a, b)):
                    return "%s %s / %s" % (nm, [num(t) for t in a], b)
            if int(e[4]) == 2 and not (v[11] and all(same(num(p), q) for p, q in zip(v[11], x[3 * d:]))):
                return "largest_fvalues_of_interest %s / %s" % (v[11], x[3 * d:])
            if v[12] != len(st["o0"]) or v[13] != len(st["o0"]):
                return "is_observed %s, observers %s / %d" % (v[12], v[13], len(st["o0"]))
            m = re.search(r"_f(\d+)_i(\d+)", e[0])
            if m and v[14] != [int(m.group(1)), d, int(m.group(2))]:
                return "id_triple %s / %s" % (v[14], e[0])
            if v[15] != st["suite"]:
                return "suite %r / %r" % (v[15], st["suite"])
        return check

    @staticmethod
    def c_nums(v, ev):
        want = ev[-1].nums()
        got = v if isinstance(v, list) else [v]
        if len(want) != len(got) or not all(same(num(a), b) for a, b in zip(got, want)):
            return "%s / %s" % ([num(t) for t in got], want)

    @staticmethod
    def c_state(v, ev):
        e = ev[-1].f
        if [v[0], v[1], v[2]] != [int(e[0]), int(e[1]), bool(int(e[2]))] or (len(v) > 3 and not same(num(v[3]), fl(e[4]))):
            return "counters and best value %s / %s" % ([num(t) for t in v], e)

    # -- calls
    def suite(self, k):
        name, inst, opts, problems = self.S[k]
        self.add("s%d = ex.Suite(%r, %r, %r)" % (k, name, inst, opts), [["resetseeds"], ["suite", k, name, inst or "NULL", opts or "NULL"]])
        self.add("(s{0}.ids(), s{0}.indices, len(s{0}), s{0}.dimensions, s{0}.number_of_objectives, s{0}.name, s{0}.instance, s{0}.options, s{0}.problem_names)".format(k),
                 check=self.c_suite(k))

    def observer(self):
        r = self.rng
        bi = any("biobj" in s[0] for s in self.S)
        name = r.choice(["bbob-biobj" if bi else "bbob", "rw", "bbob-biobj" if bi else "bbob"])
        opts = obsopts.options(r, name, "R%d" % self.no)
        opts = re.sub(r"log_time: \d ?", "", opts).strip()
        o = self.no
        self.no += 1
        py = repr(opts)
        if r.random() < .2 and "," not in opts:
            items = re.findall(r'(\w+): ("[^"]*"|\S+)', opts)
            if len({a for a, b in items}) == len(items) and not any(" " in b or '"' in b for a, b in items):
                py = repr(dict(items))
                opts = "  ".join("%s: %s" % it for it in items)
        self.add("o%d = ex.Observer(%r, %s)" % (o, name, py))
        self.add("o%d.result_folder" % o, [["observer", o, name, opts]], lambda v, ev: None if (v or "") == ev[-1].f[1].replace("NULL", "") else "result folder %r / %r" % (v, ev[-1].f[1]))
        self.obs[o] = dict(name=name, busy=None)

    def free_obs(self):
        return [o for o, st in self.obs.items() if st["busy"] is None]

    def new(self, via_next=False):
        r = self.rng
        k = r.randrange(len(self.S))
        name, inst, opts, problems = self.S[k]
        p = self.np
        self.np += 1
        st = dict(suite=name, k=k, o=[], o0=[], d=None)
        fo = self.free_obs()
        o = r.choice(fo) if fo and r.random() < .6 else None
        ob = "o%d" % o if o is not None else "None"
        if via_next:
            pos = self.cur.get(k, -1) + 1
            self.cur[k] = pos
            c = []
            for q, sq in list(self.live.items()):
                if sq.get("iter") == k:
                    c.append(["pfree", q])
                    self.dead(q)
            if pos >= len(problems):
                self.add("s%d.next_problem(%s)" % (k, ob), c, check=lambda v, ev: None if v is None else "next_problem() after the last problem returned %r" % v)
                self.add("s%d.reset()" % k)
                self.cur.pop(k)
                return
            st["iter"] = k
            idx = pos
            expr = "s%d.next_problem(%s)" % (k, ob)
        else:
            c = []
            idx = pos = r.randrange(len(problems))
            pid = problems[pos][0]
            ways = ["s%d.get_problem(%d, %s)" % (k, pos, ob), "s%d.get_problem(np.int64(%d), %s)" % (k, pos, ob), "s%d.get_problem(%r, observer=%s)" % (k, pid, ob)]
            m = re.search(r"_f(\d+)_i(\d+)_d(\d+)$", pid)
            if m and [p[0] for p in problems].count(pid) == 1:
                f, i, d = map(int, m.groups())
                ways.append("s%d.get_problem_by_function_dimension_instance(%d, %d, %d, %s)" % (k, f, d, i, ob))
            if o is None:
                ways += ["s%d[%d]" % (k, pos), "s%d[%r]" % (k, pid), "s%d[-%d]" % (k, len(problems) - pos)]
                if sum(pid in q[0] for q in problems) == 1:
                    ways += ["s%d.ids(%r, get_problem=True)" % (k, pid)]
                if pos == 0:
                    ways.append("ex.Suite(%r, %r, %r)[0]" % (name, inst, opts)) if "noisy" not in name else None
            expr = r.choice(ways)
        pid, index, d = problems[idx]
        st["d"] = d
        c.append(["getp", p, k, index])
        if o is not None:
            c.append(["addobs", p, o])
            self.attach(p, st, o)
        self.add("p%d = %s" % (p, expr), c)
        self.live[p] = st
        self.info(p)

    def sweep(self):
        """a loop over the suite, from the first problem whatever was done before, to the end or left early"""
        r = self.rng
        k = r.randrange(len(self.S))
        problems = self.S[k][3]
        c = []
        for q, sq in list(self.live.items()):
            if sq.get("iter") == k:
                c.append(["pfree", q])
                self.dead(q)
        n = r.choice([len(problems), r.randint(1, len(problems))])
        want = [[p[0], p[1], p[2]] for p in problems[:n]]
        if n == len(problems) and r.random() < .6:
            py, self.cur[k] = "[(q.id, q.index, q.dimension) for q in s%d]" % k, n
        else:      # left after n problems: one further call continues there
            py, self.cur[k] = "[(q.id, q.index, q.dimension) for q in __import__('itertools').islice(s%d, %d)]" % (k, n), n - 1
        self.add(py, c, check=lambda v, ev: None if v == want else "the loop visited %s, expected %s" % (v[:6], want[:6]))

    def attach(self, p, st, o):
        st["o"].append(o)
        st["o0"].append(o)
        if self.obs[o]["name"] != "rw":
            self.obs[o]["busy"] = p

    def dead(self, p):
        for o in self.live[p]["o"]:
            if self.obs[o]["busy"] == p:
                self.obs[o]["busy"] = None
        self.freed.append((p, self.live[p]))
        del self.live[p]

    def info(self, p):
        st = self.live[p]
        st = dict(st, o0=list(st["o0"]))
        self.add(INFO.format(p), [["info", p]], self.c_info(st))

    def step(self):
        r = self.rng
        u = r.random()
        if r.random() < .02:
            return self.sweep()
        if not self.live or u < .06 and len(self.live) < 4:
            return self.new(r.random() < .5)
        p = r.choice(list(self.live))
        st = self.live[p]
        d, name = st["d"], st["suite"]
        x = [float(r.randint(-2, 6)) for _ in range(d)] if r.random() < .2 else [r.uniform(-5, 5) * r.choice([1, 1, 1, 3]) for _ in range(d)]
        if r.random() < .04:
            x[r.randrange(d)] = r.choice([float("nan"), float("inf"), -float("inf")])
        if u < .5:
            self.add("p%d(%s)" % (p, self.spell(x)), [["eval", p] + x], self.c_nums)
        elif u < .6:
            if "constr" in name:
                self.add("p%d.constraint(%s)" % (p, self.spell(x)), [["cons", p] + x], self.c_nums)
            else:
                self.add("p%d.constraint(%s)" % (p, self.spell(x)), check=lambda v, ev: None if v is None else "constraint() of an unconstrained problem returned %s" % v)
        elif u < .68:
            one = "biobj" not in name
            self.add((STATE % (", p{0}.best_observed_fvalue1" if one else "")).format(p), [["state", p]], self.c_state)
        elif u < .71:
            self.info(p)
        elif u < .74:
            arg, many = r.choice(["0", "0", "1", "2", "5", "", "", "", "None"]), r.random() < .15
            if arg in ("", "None") and not many:      # calls without argument are counted
                k = st["props"] = st.get("props", -1) + 1
            else:
                k = int(arg) if arg.isdigit() else 1
            many = many and k > 0
            self.add("({1}, p{0}.lower_bounds, p{0}.upper_bounds, p{0}.number_of_integer_variables, p{0}.initial_solution, p{0}.number_of_constraints)".format(
                     p, "[p%d.initial_solution_proposal(%d) for _ in range(200)]" % (p, k) if many else "p%d.initial_solution_proposal(%s)" % (p, arg)),
                     check=(lambda v, ev, k=k: proposals(v, k)) if many else (lambda v, ev, k=k: proposal(v, k)))
        elif u < .78:
            fo = [o for o in self.free_obs() if o not in st["o"] and self.obs[o]["name"] not in [self.obs[w]["name"] for w in st["o"]]]
            if not fo:
                return self.observer() if len(self.obs) < 5 else None
            o = r.choice(fo)
            self.attach(p, st, o)
            self.add(r.choice(["p{0}.observe_with(o{1})", "p{0}.add_observer(o{1})", "o{1}.observe(p{0})"]).format(p, o), [["addobs", p, o]])
        elif u < .81 and st["o"]:
            o = r.choice(st["o"])
            self.add("o%d.signal_restart(p%d)" % (o, p), [["restart", o, p]])
        elif u < .83 and st["o"] and self.obs[st["o"][-1]]["name"] == "bbob":
            self.add("p%d.recommend(%s)" % (p, self.spell(x)), [["rec", p] + x])
        elif u < .85:
            self.add(r.choice(["p%d.free()", "p%d.free()", "p%d.__exit__(None, None, None)", "p%d.free(force=True)"]) % p, [["pfree", p]])
            self.dead(p)
        elif u < .97:
            self.misuse(p, st)
        elif u < .985:
            self.add("log%d = ex.log_level('')" % self.np, [["loglevel", ""]])
            self.add("ex.log_level()", [["loglevel", ""]], lambda v, ev: None if v == ev[-1].f[0] else "log level %r / %r" % (v, ev[-1].f[0]))
        else:
            self.add("gc.collect()")

    def misuse(self, p, st):
        """calls that must raise, and must leave everything as it was"""
        r, d, k = self.rng, st["d"], st["k"]
        n = len(self.S[k][3])
        badx = ["[1.] * %d" % (d + 1), "[1.] * %d" % (d - 1), "[]", "np.zeros((1, %d))" % d, "np.zeros((%d, 1))" % d, "None", "'abc'", "np.zeros((2, %d))" % d, "{}", "3.0",
                "[1j] * %d" % d, "['x'] * %d" % d, "[[1.]] * %d" % d, "np.zeros(%d)" % (64 * d)]
        c = ["p%d(%s)" % (p, r.choice(badx)), "p%d(%s)" % (p, r.choice(badx)), "p%d.recommend(%s)" % (p, r.choice(badx)), "p%d()" % p,
             "s%d[%d]" % (k, n), "s%d.get_problem(%d, %s)" % (k, r.choice([n, n + 7, 10**9, -n - 1]), "None"), "s%d['bbob_f001_i01']" % k, "s%d[None]" % k, "s%d[2.5]" % k, "s%d.get_problem(float('nan'))" % k,
             "s%d[1e300]" % k, "s%d.get_problem_by_function_dimension_instance(%s)" % (k, r.choice(["999, %d, 1" % d, "1, 6, 1", "1, %d, 99999" % d, "-1, 2, 1", "0, 0, 0", "'a', 2, 1"])),
             "ex.Suite('nonsense', '', '')", "ex.Suite(3, '', '')", "ex.Suite('bbob', 3, '')", "ex.Observer(3, '')", "ex.Observer('bbob', 3)", "ex.BareProblem('bbob', 25, 2, 1)", "ex.BareProblem('nonsense', 1, 2, 1)",
             "ex.BareProblem('bbob', 1, 2, 1)([1.0])", "ex.BareProblem('bbob', 1, 2, 1)(np.zeros((4, 3)))", "p%d.observe_with('o')" % p, "ex.log_level(3)", "p%d.evaluations = 3" % p, "p%d.dimension = 99" % p,
             "s%d.ids(3)" % k, "p%d.nonsense" % p]
        if "constr" in st["suite"]:
            c += ["p%d.constraint(%s)" % (p, r.choice(badx))] * 4
        if "biobj" in st["suite"]:
            c += ["p%d.logger_biobj_feed_solution(1, %s)" % (p, r.choice(["[1.]", "[1., 2., 3.]", "None", "'a'"])), "p%d.logger_biobj_feed_solution(-1, [1., 2.])" % p]
        if st["o"]:
            c += ["o%d.signal_restart(%s)" % (r.choice(st["o"]), r.choice(["None", "3", "s%d" % k]))] * 2
        if self.freed:
            q, sq = r.choice(self.freed)
            x = self.spell([1.0] * sq["d"])
            dead = ["p%d(%s)" % (q, x), "p%d.recommend(%s)" % (q, x), "p%d.evaluations" % q, "p%d.evaluations_constraints" % q, "p%d.initial_solution" % q, "p%d.final_target_hit" % q, "p%d.best_observed_fvalue1" % q,
                    "p%d.largest_fvalues_of_interest" % q, "p%d.initial_solution_proposal(1)" % q if "constr" in sq["suite"] else "p%d.initial_solution_proposal(0)" % q]
            if self.obs:
                o = r.choice(list(self.obs))
                dead += ["p%d.observe_with(o%d)" % (q, o), "o%d.signal_restart(p%d)" % (o, q)]
            if "constr" in sq["suite"]:
                dead.append("p%d.constraint(%s)" % (q, x))
            if "biobj" in sq["suite"]:
                dead.append("p%d.logger_biobj_feed_solution(1, [1., 2.])" % q)
            c += r.sample(dead, 6)
        self.add(r.choice(c), exc=True)


def proposal(v, k):
    x, lo, up, ni, x0, nc = [num(t) if not isinstance(t, list) else [num(a) for a in t] for t in v]
    if len(x) != len(lo):
        return "proposal %d has %d coordinates of %d" % (k, len(x), len(lo))
    if k == 0 and x != x0:
        return "proposal 0 is %s, the initial solution %s" % (x, x0)
    if k > 0 and ni < len(x) and x[ni:] == x0[ni:]:
        return "proposal %d is the initial solution again" % k
    for i, t in enumerate(x):
        if i < ni and t != int(t):
            return "proposal %d: integer coordinate %d is %r" % (k, i, t)
        if k and nc and i >= ni:
            if abs(t - x0[i]) > 1 + 1e-9:
                return "proposal %d: coordinate %d is %r, more than 1 from the feasible initial solution" % (k, i, t)
        elif not lo[i] <= t <= up[i]:
            return "proposal %d: coordinate %d is %r, outside of [%r, %r]" % (k, i, t, lo[i], up[i])


def proposals(v, k):
    """two hundred proposals: each one legal, together spread over the whole range"""
    for t in v[0]:
        e = proposal([t] + v[1:], k)
        if e:
            return e
    lo, up, x0 = ([num(a) for a in v[i]] for i in (1, 2, 4))
    for i in range(len(lo)):
        xs = [num(t[i]) for t in v[0]]
        if i < num(v[3]):
            if up[i] - lo[i] < 4 and len(set(xs)) != up[i] - lo[i] + 1:
                return "200 proposals: integer coordinate %d takes only the values %s of [%r, %r]" % (i, sorted(set(xs)), lo[i], up[i])
            continue
        a, w = (x0[i] - 1, 2) if num(v[5]) else (lo[i], up[i] - lo[i])
        if min(xs) > a + .4 * w or max(xs) < a + .6 * w:
            return "200 proposals: coordinate %d only within [%r, %r] of [%r, %r]" % (i, min(xs), max(xs), a, a + w)


def selection(rng, name):
    n, first, ds, _, _ = gen.SUITES[name]
    dd = [d for d in ds if d <= (40 if name == "bbob-largescale" else 20)]
    o = ["dimensions: %s" % ",".join(map(str, sorted(rng.sample(dd, min(len(dd), rng.randint(1, 2))))))]
    o.append("function_indices: %s" % ",".join(map(str, sorted(rng.sample(range(1, n + 1), rng.randint(1, 4))))))
    if rng.random() < .3:
        o.append("instance_indices: 1-2")
    rng.shuffle(o)
    return rng.choice(["instances: 1,2", "instances: 3", "instances: 1-3", ""] if "indices: 1-2" in " ".join(o) else ["instances: 1,2", "instances: 5", "instances: 2-3"]), " ".join(o)


# ------------------------------------------------------------------ pure misuse: nothing may crash
PRE = ["def S(n='bbob'): return ex.Suite(n, 'instances:1', 'dimensions:2,5 function_indices:1-3')",
       "def O(n='bbob'): return ex.Observer(n, 'result_folder:R')",
       "from cocoex.interface import Problem"]
NAMES = ["bbob", "bbob-biobj", "bbob-constrained", "bbob-mixint", "bbob-noisy"]


def hostile(rng):
    """a random program over a few objects in arbitrary states of life"""
    ops = []
    n = rng.choice(NAMES)
    d = 5 if "mixint" in n else 2
    ob = "bbob-biobj" if "biobj" in n else "bbob"
    onames = [ob, ob, "rw", "toy", "no_observer", "bbob-old" if ob == "bbob" else ob]
    v = lambda c: "%s%d" % (c, rng.randrange(3))
    if rng.random() < .5:
        ops += ["s0 = S(%r)" % n, "o0 = O(%r)" % rng.choice(onames), "p0 = s0[0]"]
    good = "[1.5] * %d" % d
    acts = [
        lambda: "%s = S(%r)" % (v("s"), n), lambda: "%s = O(%r)" % (v("o"), rng.choice(onames)), lambda: "%s = %s[%d]" % (v("p"), v("s"), rng.randrange(3)),
        lambda: "%s = S(%r)[%d]" % (v("p"), n, rng.randrange(3)),
        lambda: "%s = %s.next_problem()" % (v("p"), v("s")), lambda: "%s = %s.next_problem(%s)" % (v("p"), v("s"), v("o")),
        lambda: "%s.observe_with(%s)" % (v("p"), v("o")), lambda: "%s.observe(%s)" % (v("o"), v("p")), lambda: "%s = %s.get_problem(%d, %s)" % (v("p"), v("s"), rng.randrange(3), v("o")),
        lambda: "%s(%s)" % (v("p"), good), lambda: "%s(%s)" % (v("p"), good), lambda: "%s(%s)" % (v("p"), rng.choice(["[]", "[1.]", "np.zeros((%d, 1))" % d, "None", "[1.] * 999"])),
        lambda: "%s.constraint(%s)" % (v("p"), good), lambda: "%s.recommend(%s)" % (v("p"), good),
        lambda: "%s.free()" % v("p"), lambda: "%s.free()" % v("s"), lambda: "%s.free()" % v("o"), lambda: "%s = None" % v("p"), lambda: "%s = None" % v("s"), lambda: "%s = None" % v("o"), lambda: "gc.collect()",
        lambda: "%s.signal_restart(%s)" % (v("o"), v("p")), lambda: "%s.logger_biobj_feed_solution(%d, [1., 2.])" % (v("p"), rng.randint(1, 9)),
        lambda: "%s.%s" % (v("p"), rng.choice(["evaluations", "evaluations_constraints", "initial_solution", "final_target_hit", "best_observed_fvalue1", "largest_fvalues_of_interest", "id", "name", "index", "info",
                                              "observers", "is_observed", "id_function", "lower_bounds", "dimension"])),
        lambda: "str(%s), repr(%s)" % ((v(rng.choice("pso")),) * 2), lambda: "%s.%s" % (v("o"), rng.choice(["result_folder", "name", "options", "state"])),
        lambda: "%s.reset()" % v("s"), lambda: "[q.evaluations for q in %s]" % v("s"), lambda: "[q for q in %s]" % v("s"), lambda: "len(%s), %s.ids()" % ((v("s"),) * 2),
        lambda: "%s = Problem()" % v("p"), lambda: "%s = %s" % (v("p"), v("p")), lambda: "b = ex.BareProblem('bbob', %d, %d, %d)" % (rng.choice([1, 5, 24, 0, 25]), rng.choice([1, 2, 5, 44, 45, 0]), rng.choice([0, 1, 2])),
        lambda: "b(%s)" % rng.choice(["[1., 2.]", "np.zeros((3, 2))", "np.zeros((3, 5))", "[]", "np.zeros(5)", "np.zeros((2, 0))"]), lambda: "(b.best_value(), b.best_parameter(), b.is_tainted, str(b), repr(b), b.suite_name)",
        lambda: "b.__init__('bbob', 1, 3, 1)", lambda: "b = ex.BareProblem.__new__(ex.BareProblem)", lambda: "b = None",
        lambda: "%s._best_parameter('print')" % v("p"), lambda: "%s.__init__('bbob', '', '')" % v("s"),
        lambda: "%s.held = %s, %s" % (v("o"), v("p"), v("s")), lambda: "%s.held = %s" % (v("s"), v("o")), lambda: "cyc = [%s, %s, %s]; cyc.append(cyc); cyc = %s = %s = None" % (v("p"), v("s"), v("o"), v("p"), v("s")),
    ]
    w = [2, 3, 5, 1, 3, 3, 5, 3, 4, 8, 8, 3, 2, 2, 5, 3, 3, 2, 2, 2, 2, 5, 2, 6, 2, 2, 1, 1, 1, 1, .7, 1, 1, 2, 2, .5, .5, 1, .7, .5, 3, 1, 2]
    for a in rng.choices(acts, w, k=rng.randint(8, 40)):
        ops.append(a())
    return ops


def fixed():
    """one program per documented or plausible misuse"""
    return [l.split(" ; ") for l in open(os.path.join(VERIF, "drv", "pymisuse.txt")).read().splitlines() if l and l[0] != "#"]


def run(ctx):
    ctx.rule = ("one case = (a) one random history of documented calls over one or two suites, several problems and observers, with misuse in between, executed through the Python package and through the C API: "
                "everything returned and all log files compared, every misuse must raise; or (b) one hostile program over objects in arbitrary states, which may raise or end with the core's error "
                "message but not corrupt memory or crash; the Python extension is compiled with AddressSanitizer; distinct by program; non-trivial = at least one call went through")
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        fa = ex.submit(lambda: ctx.build("cut:fast"))
        fb = ex.submit(pybuild.build, "asan")
        (fast,), site = fa.result(), fb.result()
    n = 25 if ctx.quick else 150

    # (a) -- the suites of every history, asked from the core
    todo = []
    for name in KNOWN:
        for rep in range(n):
            rng = random.Random("C20/%d/%s/%d" % (ctx.seed, name, rep))
            names = [name] + ([rng.choice([s for s in KNOWN if ("biobj" in s) == ("biobj" in name)])] if rng.random() < .3 else [])
            todo.append((rng, [(s,) + selection(rng, s) for s in names]))

    def prepare(t):
        rng, sel = t
        cmds = []
        for k, (s, i, o) in enumerate(sel):
            cmds += [["suite", k, s, i or "NULL", o or "NULL"], ["enum", k, 100000]]
        r = ctx.run(fast, cmds, loglevel="error")
        if not ctx.legit(r, "%s" % sel, cmds):
            return None
        S = []
        for k, (s, i, o) in enumerate(sel):
            S.append((s, i, o, [(a, int(b), int(c)) for a, b, c in (f.split("|") for f in r.events[2 * k + 1].f)]))
        g = Gen(rng, S)
        for k in range(len(S)):
            g.suite(k)
        g.observer()
        if rng.random() < .5:
            g.observer()
        for _ in range(rng.randint(20, 70)):
            g.step()
        end = [q for q, st in g.live.items()]
        rng.shuffle(end)
        if rng.random() < .3:
            # the suites go first; the problems stay usable
            for k in range(len(S)):
                g.add("s%d.free()" % k)
                g.add(rng.choice(["s%d[0]", "s%d.next_problem()", "s%d.get_problem_by_function_dimension_instance(1, 2, 1)"]) % k, exc=True)
            for q in end[:2]:
                x = [rng.uniform(-5, 5) for _ in range(g.live[q]["d"])]
                g.add("p%d(%s)" % (q, g.spell(x)), [["eval", q] + x], g.c_nums)
        for q in end:
            g.add(rng.choice(["p%d.free()", "del p%d"]) % q, [["pfree", q]])
        cmds = [c for st in g.plan for c in st[1]]
        rc = ctx.run(fast, cmds, keep=True, loglevel="error")
        return dict(plan=g.plan, points=g.pts, ops=[st[0] for st in g.plan], c=rc, cmds=cmds, what=" + ".join(s[0] for s in S))

    jobs = [j for j in ctx.par(prepare, todo) if j]
    # (c) bare problems
    for f in range(1, 25):
        rng = random.Random("C20/bare/%d/%d" % (ctx.seed, f))
        for d in rng.sample([2, 3, 5, 7, 13, 20, 40, 44], 3 if ctx.quick else 7):
            i = rng.randint(1, 99)
            X = [[rng.uniform(-6, 6) for _ in range(d)] for _ in range(6)]
            cmds = [["bare", 0, f, d, i]] + [["eval", 0] + x for x in X] + [["fopt", 0], ["tainted", 0], ["best", 0], ["tainted", 0], ["info", 0, "notype"]]
            rc = ctx.run(fast, cmds, keep=True, loglevel="error")
            if not ctx.legit(rc, "bare", cmds):
                continue
            ops = ["b = ex.BareProblem('bbob', %d, %d, %d)" % (f, d, i), "[b(x) for x in pts]", "b(np.array(pts))", "[b(arr(k)) for k in range(6)]", "[b.best_value(), b.is_tainted, b.best_parameter(), b.is_tainted, b.id, str(b), b.function, b.dimension, b.instance, b.suite_name, repr(b)]"]
            jobs.append(dict(bare=(f, d, i), points=[[hx(v) for v in x] for x in X], ops=ops, c=rc, cmds=cmds, what="bare f%d d%d i%d" % (f, d, i)))
    # (b)
    ms = []
    for rep in range(250 if ctx.quick else 3000):
        ms.append(dict(points=[], ops=PRE + hostile(random.Random("C20/hostile/%d/%d" % (ctx.seed, rep)))))
    for ops in fixed():
        ms.append(dict(points=[], ops=PRE + ops))
    serve(ctx, site, jobs + ms, "asan")
    ms, jobs = ([j for j in q if "skip" not in j] for q in (ms, jobs))

    for j in ms:
        w = outcome(j)
        ops = j["ops"][len(PRE):]
        last = j["ops"][len(j["r"])] if len(j["r"]) < len(j["ops"]) else "end"
        fatal = w and w.startswith("fatal: ")
        through = sum(1 for r in j["r"] if "x" not in r) - len(PRE)
        ctx.bump(hostile_calls=len(j["r"]), hostile_raised=sum(1 for r in j["r"] if "x" in r), ended_by_core_error=int(bool(fatal)))
        if w and not fatal:
            ctx.violation("interpreter lost: " + w[:100], "at %r: %s" % (last, w), {"ops": j["ops"], "stderr": j["stderr"][-4000:]})
        if through > 0:
            ctx.case(("hostile", repr(ops)), {"program": ops[:12]} if len(ops) > 30 else None)
        ctx.drop(j["dir"])

    ctx.par(lambda j: judge(ctx, j), jobs, workers=1)


def judge(ctx, j):
    rc = j["c"]
    what = j["what"]
    bad = lambda key, msg: ctx.violation(key, "%s: %s" % (what, msg), {"ops": j["ops"], "points": j["points"], "script": j["cmds"]})
    try:
        w = outcome(j)
        if w:
            last = j["ops"][len(j["r"])] if len(j["r"]) < len(j["ops"]) else "end"
            return bad("interpreter lost: " + w[:100], "at %r: %s %s" % (last, w, j["stderr"][-1500:]))
        for c in j["changed"][:1]:
            return bad("a later call changed an array", "%s was %s and is %s at the end" % ("the result of %r" % j["ops"][c["changed"]] if c["changed"] >= 0 else "the point passed in", c["from"], c["to"]))
        if "bare" in j:
            f, d, i = j["bare"]
            ev = rc.events
            want = [ev[1 + k].nums()[0] for k in range(6)]
            for k in (1, 2, 3):
                v = j["r"][k].get("v")
                if not v or not all(same(num(a), b) for a, b in zip(v, want)) or len(v) != 6:
                    return bad("bare values", "%s gives %s, the core %s" % (j["ops"][k], j["r"][k], want))
            v = j["r"][4].get("v")
            best = ev[9].nums(1) if ev[9].f[0] == "1" else None
            if not v or not same(num(v[0]), ev[7].nums()[0]) or v[1] is not False or v[3] is not True or [num(a) for a in v[2] or []] != (best or []) or v[4] != ev[11].f[0] or v[5] != v[4] or v[6:10] != [f, d, i, "bbob"]:
                return bad("bare attributes", "%s, the core %s %s %s" % (j["r"][4], ev[7].nums(), best, ev[11].f[:1]))
            return ctx.case(("bare", f, d, i))
        if rc.crashed:
            return bad("core: " + rc.signature(), "the same history through the C API: %s" % rc.describe())
        pos = 0
        for k, (py, c, check, exc) in enumerate(j["plan"]):
            ev = rc.events[pos:pos + len(c)]
            pos += len(c)
            r = j["r"][k]
            if exc:
                ctx.bump(misuse_raised=1)
                if "x" not in r:
                    return bad("misuse accepted: " + re.sub(r"\d+", "#", py), "%s returned %s instead of raising an exception" % (py, r.get("v")))
                continue
            if "x" in r:
                return bad("call refused: " + re.sub(r"[\d.]+", "#", py)[:60], "%s raised %s: %s" % (py, r["x"], r.get("m")))
            ctx.bump(calls=1)
            if check:
                m = check(r["v"], ev)
                if m:
                    return bad("differs: " + re.sub(r"[\d.]+", "#", py)[:60], "call %d, %s: Python / C core: %s" % (k, py, m))
        a, b = bm.read_tree(j["dir"]), bm.read_tree(rc.dir)
        if a != b:
            name = next((x for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)), None)
            return bad("log differs", "%s: through Python %r, through C %r" % (name, (a.get(name) or "")[-400:], (b.get(name) or "")[-400:]))
        ctx.bump(files_compared=len(a))
        ctx.case((what, repr(j["ops"])), {"suites": what, "calls": len(j["ops"]), "files": len(a)} if len(a) > 4 else None)
    finally:
        ctx.drop(rc, j["dir"])
