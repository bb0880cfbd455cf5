"""Workloads and monitors for the Python experiment tools (cocoex.utilities, cocoex.solvers).

usage: pyutil.py OUT.json KIND SEED COUNT FOLDER      writes {"events": n, "cases": n, "seen": {...}, "bad": [[key, detail], ...]}
Every case is a random program of the tool, judged against an executable model kept next to it.
"""
import collections, contextlib, glob, io, json, os, random, re, sys, traceback
import numpy as np
import cocoex as ex
from cocoex import utilities as ut

BAD, SEEN = [], collections.Counter()
EVENTS = [0]


def bad(key, **detail):
    if len(BAD) < 40:
        BAD.append([key, {k: str(v)[:400] for k, v in detail.items()}])


def expect(what, got, want, **detail):
    EVENTS[0] += 1
    if got != want:
        bad(what, got=got, expected=want, **detail)
        return False
    return True


SUITES = [("bbob", 24, (2, 3, 5, 10)), ("bbob-biobj", 55, (2, 3, 5)), ("bbob-constrained", 54, (2, 3, 5)), ("bbob-mixint", 24, (5, 10)), ("bbob-largescale", 24, (20, 40)),
          ("bbob-biobj-mixint", 92, (5, 10)), ("bbob-boxed", 24, (2, 3)), ("bbob-noisy", 30, (2, 3))]


def small_suite(rng, names=None, nf=6):
    name, f, dims = rng.choice([s for s in SUITES if names is None or s[0] in names])
    fs = sorted(rng.sample(range(1, f + 1), rng.randint(1, nf)))
    ds = sorted(rng.sample(dims, rng.randint(1, len(dims))))
    inst = rng.choice(["1", "1-3", "1,2", "4-5", "1-2,1-2", "3"])
    if name == "bbob-constrained" and "1-2,1-2" == inst:
        inst = "1-2"
    return ex.Suite(name, "instances: " + inst, "dimensions: %s function_indices: %s" % (",".join(map(str, ds)), ",".join(map(str, fs)))), name


def optimum(p):
    f, d, i = triple(p)
    return ex.BareProblem("bbob", f, d, i).best_parameter()


def triple(p):
    f = p.id.split("_f")[1].split("_")[0]
    d = p.id.split("_d")[1].split("_")[0]
    i = p.id.split("_i")[1].split("_")[0]
    return int(f), int(d), int(i)


# ---------------------------------------------------------------------------------------------------------------- batches
def batches(rng, folder):
    suite, name = small_suite(rng, nf=9)
    order, groups = [], []
    for p in suite:
        t = triple(p)
        order.append(p.index)
        if not groups or groups[-1][0] != t[:2]:
            groups.append((t[:2], []))
        groups[-1][1].append(p.index)
    nb = rng.choice([1, 2, 3, 4, 5, 6, 7, 12, 13, len(groups), len(groups) + 1])
    sweeps = rng.randint(1, 3)
    got = {}
    for b in range(nb):
        s = ex.BatchScheduler(nb, b)
        for k in range(sweeps):
            got[b, k] = [p.index for p in suite if s.is_in_batch(p)]
            SEEN["batch members"] += len(got[b, k])
    for k in range(sweeps):
        expect("the batches are no partition of the suite", sorted(i for b in range(nb) for i in got[b, k]), sorted(order), suite=name, batches=nb, sweep=k)
        for b in range(nb):
            want = [i for g, (_, m) in enumerate(groups) if g % nb == b for i in m]
            expect("a batch has other problems than its share", got[b, k], want, suite=name, batches=nb, batch=b, sweep=k)
    for b in (-1, nb, nb + 3):
        if nb == 1 and b == 1:
            continue
        try:
            ex.BatchScheduler(nb, b)
            bad("an invalid batch number is accepted", batches=nb, batch=b)
        except ValueError:
            SEEN["refused batch"] += 1


# --------------------------------------------------------------------------------------------------------------- repeater
class Fake:
    def __init__(self, f, d, i):
        self.id_function, self.dimension, self.id_instance, self.evaluations, self.final_target_hit = f, d, i, 0, 0
        self.info = "fake"

    def initial_solution_proposal(self, k=None):
        return ("proposal", k)


class Model:
    """what the documentation of ExperimentRepeater says"""
    def __init__(self, mult, minsucc):
        self.mult, self.minsucc, self.data, self.sweeps = mult, minsucc, {}, 0

    def key(self, t):
        return self.data.get(t[:2], {})

    def succ(self, t):
        return sum(s for v in self.key(t).values() for _, s in v) >= self.minsucc

    def exhausted(self, t):
        d = self.key(t)
        return sum(e for v in d.values() for e, _ in v) >= max(1, len(d)) * self.mult * t[1]

    def missing(self, t):
        d = self.key(t)
        return max([1] + [len(v) for v in d.values()]) - len(d.get(t[2], ()))

    def need(self, t):
        return bool(self.sweeps <= 1 or self.missing(t) or not (self.succ(t) or self.exhausted(t)))

    def text(self):
        """the message of done()"""
        if not self.data:
            return "" if self.sweeps <= 1 else "Sweep %d done but no data were recorded" % self.sweeps
        succ = [sum(s for v in k.values() for _, s in v) for k in self.data.values()]
        n = len(self.data)
        return "Sweep %d done (%d success%s on %d problem%s where %d had >= 1 success and %d had >= %d successes and %d exhausted the budget)" % (
            self.sweeps, sum(succ), "" if sum(succ) == 1 else "es", n, "" if n == 1 else "s", sum(s > 0 for s in succ), sum(s >= self.minsucc for s in succ), self.minsucc,
            sum(self.exhausted(t) and not self.succ(t) for t in self.data))

    def all_done(self):
        """done() without argument"""
        self.sweeps += 1
        if self.sweeps == 1:
            return False
        done = not self.data or not any(self.need((f, d, i)) for (f, d), v in self.data.items() for i in v)
        self.sweeps -= done
        return done


def told(r, text):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        done = r.done(message=text is not None)
    if text is not None:
        expect("repeater: message", " ".join(out.getvalue().split()), text)
    return done


def queries(rng, r, m, ts):
    f, d, i = rng.choice(ts)
    known = m.key((f, d))
    inst = sorted(known)
    if rng.random() < 0.2:
        i = rng.choice([i, 17, 99])      # an instance that was not run
    t = rng.choice([(f, d, i), (f, d), (f, d, None)])
    expect("repeater: evaluations", r.evaluations(t), [sum(e for e, _ in known[k]) for k in inst], data=m.data)
    expect("repeater: successes", r.successes(t), [sum(s for _, s in known[k]) for k in inst], data=m.data)
    expect("repeater: trials", r.trials(t), [len(known[k]) for k in inst], data=m.data)
    expect("repeater: trials of an instance", r.trials(t, i), len(known.get(i, ())), data=m.data)
    expect("repeater: instances", r.instances(t), inst, data=m.data)
    expect("repeater: budget exhausted", bool(r.budget_exhausted(t)), m.exhausted((f, d)), data=m.data)
    expect("repeater: succeeded", bool(r.succeeded(t)), m.succ((f, d)), data=m.data)
    expect("repeater: missing trials", r.missing_trials((f, d, i)), m.missing((f, d, i)), data=m.data)
    expect("repeater: data of an instance", list(r.data_of_instance((f, d, i))), known.get(i, []), data=m.data)
    expect("repeater: number of trials", (r.n_trials(), r.n_trials(t)), (sum(len(v) for k in m.data.values() for v in k.values()), sum(len(v) for v in known.values())), data=m.data)
    expect("repeater: number of problems", (r.n_problems, r.n_problem_instances(), r.n_problem_instances(t)), (len(m.data), sum(len(v) for v in m.data.values()), len(known)), data=m.data)
    expect("repeater: all", r.all(rng.choice(["trials", r.trials])), {k: [len(v[x]) for x in sorted(v)] for k, v in m.data.items()}, data=m.data)
    expect("repeater: done(problem)", bool(r.done((f, d, i))), not m.need((f, d, i)), data=m.data, problem=(f, d, i))
    expect("repeater: remaining problems", sorted(r.remaining_problems()), sorted((a, b, c) for (a, b), v in m.data.items() for c in v if m.need((a, b, c))), data=m.data)
    expect("repeater: budget", r.budget_from_dimension(d), d * m.mult)


def repeater(rng, folder):
    real = rng.random() < 0.4
    mult, minsucc = rng.choice([0, 1, 2, 3.5, 10, 30, 100]), rng.choice([1, 2, 3, 5, 11])
    args = {} if minsucc == 11 else {"min_successes": minsucc}
    r, m = ex.ExperimentRepeater(mult, **args), Model(mult, minsucc)
    if real:
        suite, name = small_suite(rng, ("bbob", "bbob-mixint", "bbob-boxed"), 3)
        ts = list(dict.fromkeys(triple(p) for p in suite))
    else:
        ts = [(f, d, i) for d in sorted(rng.sample([2, 3, 5, 10, 20], rng.randint(1, 3))) for f in sorted(rng.sample(range(1, 25), rng.randint(1, 4))) for i in sorted(rng.sample(range(1, 20), rng.randint(1, 5)))]
    psucc, size = rng.choice([0, 0.1, 0.5, 0.9, 1]), rng.choice([1, 5, 40])
    skip = {t for t in ts if rng.random() < 0.1} if rng.random() < 0.3 else set()
    for sweep in range(12):
        text = m.text()
        for again in range(3):
            done, want = told(r, text if rng.random() < 0.5 else None), m.all_done()
            if not expect("repeater: done()", bool(done), want, data=m.data, sweep=sweep, budget=mult, min_successes=minsucc, again=again) or not done:
                break
            SEEN["done asked again"] += again > 0
            queries(rng, r, m, ts)      # asking once more changes nothing
        if done:
            break
        todo = suite if real else [Fake(*t) for t in ts]
        for p in todo:
            t = triple(p) if real else (p.id_function, p.dimension, p.id_instance)
            if t in skip:
                continue
            if not expect("repeater: done(problem)", bool(r.done(p)), not m.need(t), data=m.data, problem=t, sweep=sweep, budget=mult, min_successes=minsucc):
                return
            n = sum(len(v) for v in m.key(t).values())
            odds = rng.choice([14, 14, 0, 1, 4])
            if not real:
                expect("repeater: initial solution proposal", r.initial_solution_proposal(p, odds), ("proposal", n + 1 if odds == 0 else n if n % (odds + 1) else 0), trials=n, odds=odds)
            elif n % 15 == 0:
                expect("repeater: initial solution proposal", list(r.initial_solution_proposal(p)), list(p.initial_solution), trials=n)
            if not m.need(t):
                continue
            e, s = rng.randint(1, size), int(rng.random() < psucc and (not real or name == "bbob"))
            if real:
                for _ in range(e - s):
                    p(p.initial_solution_proposal(1 + _))
                if s:
                    p(optimum(p))
                hit = int(p.final_target_hit)
                expect("repeater: target hit", max(hit, s), hit)
                s = hit
                expect("repeater: evaluations of the run", p.evaluations, e)
            else:
                p.evaluations, p.final_target_hit = e, s
            r.track(p)
            m.data.setdefault(t[:2], {}).setdefault(t[2], []).append((e, s))
            SEEN["tracked runs"] += 1
            SEEN["successes"] += s
            if rng.random() < 0.15:
                queries(rng, r, m, ts)
        SEEN["sweeps"] += 1
        for _ in range(3):
            queries(rng, r, m, ts)


# ----------------------------------------------------------------------------------------------------------------- solver
class Recorder:
    def __init__(self, p):
        self.p, self.number_of_constraints, self.number_of_objectives, self.x, self.f, self.g = p, p.number_of_constraints, p.number_of_objectives, [], [], []

    def __call__(self, x):
        y = self.p(x)
        self.x.append(np.array(x))
        self.f.append(y)
        return y

    def constraint(self, x):
        g = self.p.constraint(x)
        self.g.append((np.array(x), g))
        return g


def solver(rng, folder):
    suite, name = small_suite(rng, ("bbob", "bbob-constrained", "bbob-constrained", "bbob-biobj", "bbob-largescale"), 2)
    p = suite[rng.randrange(len(suite))]
    budget = rng.choice([0, 1, 2, 7, 50, 300, 1000, int(4e4 / p.dimension) + rng.randint(-2, 3), 45000 // p.dimension] + ([] if p.dimension > 3 else [int(4e4 / p.dimension) * 2 + 3]))
    if name == "bbob-constrained":
        budget = min(budget, 4000)
    np.random.seed(rng.randrange(2**31))
    w = rng.choice([1.0, 0.5, 0.05])
    lo, up = p.lower_bounds * w, p.upper_bounds * w
    if name == "bbob-constrained" and rng.random() < 0.7:      # around the feasible point
        c = p.initial_solution
        lo, up = c - 1, c + 1
    r = Recorder(p)
    x = ex.solvers.random_search(r, lo, up, budget)
    SEEN["solver evaluations"] += len(r.f)
    det = dict(suite=name, problem=p.id, budget=budget)
    if p.number_of_constraints:
        if not (len(r.f) <= budget and (budget == 0 or len(r.f) > 0)):
            bad("random search spends another number of evaluations than its budget", evaluations=len(r.f), **det)
    else:
        expect("random search spends another number of evaluations than its budget", len(r.f), budget, **det)
    EVENTS[0] += 1
    X = np.array(r.x)
    if len(X) and not (np.all(X >= lo) and np.all(X <= up)):
        bad("random search leaves the bounds", **det)
    if len(X) > 20 and not np.all(X.max(0) - X.min(0) > 0.2 * (up - lo)):
        bad("random search does not cover the box", spread=(X.max(0) - X.min(0)), **det)
    if len(X) > 1 and len(np.unique(X, axis=0)) != len(X):
        bad("random search evaluates a point twice", **det)
    if p.number_of_objectives == 1:
        feas = list(range(len(r.f)))
        if p.number_of_constraints:
            p2 = suite.get_problem(p.id)
            feas = [k for k in feas if np.all(p2.constraint(r.x[k]) <= 0)]
            p2.free()
            SEEN["feasible samples"] += len(feas)
            SEEN["infeasible samples"] += len(r.f) - len(feas)
        if not feas:
            expect("random search returns a point although none was feasible", x is None, True, **det)
        else:
            b = min(r.f[k] for k in feas)
            if x is None or not any(np.array_equal(x, r.x[k]) and r.f[k] == b for k in feas):
                bad("random search does not return the best feasible point", best=b, x=x, **det)
            else:
                SEEN["best returned"] += 1
    p.free()


# ----------------------------------------------------------------------------------------------------- budgeted algorithms
def nonanytime(rng, folder):
    suite, name = small_suite(rng, ("bbob", "bbob-mixint", "bbob-boxed", "bbob-largescale"), 3)
    index = rng.randrange(len(suite))
    free = suite[index]
    obs = ex.Observer("rw", "outer_folder: %s result_folder: R precision_f: 17" % folder)
    logged = []
    best = np.inf

    def value(x):
        return free(x)
    with ut.ProblemNonAnytime(suite, obs, index) as p:
        for a in ("id", "name", "dimension", "index", "number_of_objectives", "number_of_constraints", "number_of_variables"):
            expect("non-anytime problem: " + a, getattr(p, a), getattr(free, a) if a != "name" else getattr(p.p_observed, a))
        for a in ("initial_solution", "lower_bounds", "upper_bounds"):
            expect("non-anytime problem: " + a, list(getattr(p, a)), list(getattr(free, a)))
        budgets = sorted(rng.sample(range(1, 40), rng.randint(1, 5)))
        nobs = 0
        hit = 0
        for b in budgets:
            if b < nobs:
                b = nobs
            xs = []
            for j in range(b):
                x = rng.choice([p.random_solution, p.random_solution, p.initial_solution]) if name != "bbob-mixint" else np.array(free.initial_solution_proposal(j))
                if xs and rng.random() < 0.2:
                    x = rng.choice(xs)
                xs.append(x)
                y = p(x)
                v = value(x)
                expect("non-anytime problem: value", y, v)
                if j >= nobs:
                    logged.append(v)
                    nobs += 1
                    best = min(best, v)
                expect("non-anytime problem: evaluations", (p.evaluations, p.p_observed.evaluations), (j + 1, nobs), budget=b)
                expect("non-anytime problem: best observed value", p.best_observed_fvalue1, best)
            if rng.random() < 0.2 and b > 1:      # budgets must not shrink
                q = rng.randint(1, nobs)
                p.reset()
                for j in range(q - 1):
                    expect("non-anytime problem: value", p(xs[0]), value(xs[0]))
                if q - 1 < nobs:
                    try:
                        p.delivered(xs[0])
                        bad("non-anytime problem: a delivery from a smaller budget is accepted", budget=q - 1, observed=nobs)
                    except ValueError:
                        SEEN["refused delivery"] += 1
                p.reset()
                for j in range(b):
                    y = p(xs[0])
                    if j >= nobs:
                        logged.append(y)
                        nobs += 1
                        best = min(best, y)
            d = rng.choice(xs)
            if rng.random() < 0.5:
                d = min(xs, key=value)
            v = value(d)
            p.delivered(d)
            if v != best:
                logged.append(v)
                nobs += 1
                best = min(best, v)
                SEEN["delivered, evaluated again"] += 1
            else:
                SEEN["delivered, known"] += 1
            expect("non-anytime problem: evaluations", (p.evaluations, p.p_observed.evaluations), (0, nobs), budget=b)
        hit = p.final_target_hit
    obs.free()
    got = []
    for f in glob.glob(os.path.join(folder, "R", "*.txt")):
        for line in open(f):
            if line.strip() and line[0] != "%":
                c = line.split()
                got.append((int(c[0]), float(c[2])))
    expect("non-anytime problem: the log", got, [(k + 1, v) for k, v in enumerate(logged)], problem=free.id)
    SEEN["logged"] += len(got)
    free.free()


# ------------------------------------------------------------------------------------------------- options, settings, text
def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            out[os.path.relpath(os.path.join(r, f), d)] = open(os.path.join(r, f)).read()
    return out


def options(rng, folder):
    name = rng.choice(["bbob", "bbob-biobj", "rw"])
    pool = {"algorithm_name": ["A1", "my-alg", "x_y"], "base_evaluation_triggers": ['"1,2,5"', "1,3", "3", "2,4,8"], "number_target_triggers": [1, 5, 20],
            "precision_f": [3, 5], "precision_x": [2, 9], "log_discrete_as_int": [0, 1]}
    if name == "bbob":
        pool["log_target_precision"] = [1e-3, 1e-6]
    if name == "bbob-biobj":
        pool.update(algorithm_info=['"a {b}, c d"', '"it\'s: here"', "word", '"u\'x"'], log_nondominated=["all", "final", "none"], log_decision_variables=["all", "none", "log_dim"], compute_indicators=[0, 1])
    if name == "rw":
        pool = {"log_only_better": [0, 1], "log_variables": ["all", "none", "log_dim"], "log_time": [0], "precision_f": [3, 12], "precision_x": [2, 9]}
    keys = rng.sample(sorted(pool), rng.randint(1, len(pool)))
    opt = {k: rng.choice(pool[k]) for k in keys}
    if name == "bbob-biobj" and opt.get("log_nondominated") == "none" and opt.get("compute_indicators") == 0:
        opt["compute_indicators"] = 1
    pts = [[rng.uniform(-5, 5) for _ in range(2)] for _ in range(60)]
    trees = []
    forms = ["string", "dict", "ObserverOptions"]
    for form in forms:
        where = os.path.join(folder, form)
        os.makedirs(where)
        os.chdir(where)
        o = dict(opt)
        o["result_folder"] = "R"
        s = ex.Suite("bbob-biobj" if name == "bbob-biobj" else "bbob", "instances: 1", "dimensions: 2 function_indices: 3")
        arg = " ".join("%s: %s" % i for i in o.items()) if form == "string" else o if form == "dict" else ut.ObserverOptions(o).as_string
        ob = ex.Observer(name, arg)
        p = s[0].add_observer(ob)
        for x in pts:
            p(x)
        p.free()
        ob.free()
        s.free()
        trees.append(tree(where))
        os.chdir(folder)
    SEEN["option forms"] += 3
    for k in (1, 2):
        if not expect("observer options as %s have another effect than as string" % forms[k], sorted(trees[k]), sorted(trees[0]), options=opt, observer=name):
            continue
        for f in trees[0]:
            if not expect("observer options as %s have another effect than as string" % forms[k], trees[k][f], trees[0][f], options=opt, observer=name, file=f):
                break
    u = ut.ObserverOptions({"a": 1})
    expect("ObserverOptions: update", dict(u.update({"b": 2}, c=3)), {"a": 1, "b": 2, "c": 3})
    expect("ObserverOptions: update gracefully", dict(u.update_gracefully({"a": 9, "d": 4})), {"a": 1, "b": 2, "c": 3, "d": 4})


def literal(rng, depth=0):
    k = rng.randrange(8 if depth < 3 else 6)
    if k == 0:
        return rng.randint(-10**rng.randint(0, 30), 10**12)
    if k == 1:
        return rng.choice([0.1, -1e-300, 1e308, 2.0, rng.random(), rng.gauss(0, 1e6)])
    if k == 2:
        return "".join(rng.choice("abc _'\"\\\n\t{}[],:é#%u") for _ in range(rng.randint(0, 12)))
    if k == 3:
        return rng.choice([True, False, None])
    if k == 4:
        return b"x\x00y"[:rng.randint(0, 3)]
    if k == 5:
        return complex(rng.randint(0, 5), 1) if rng.random() < 0.2 else rng.randint(0, 9)
    if k == 6:
        return rng.choice([list, tuple])(literal(rng, depth + 1) for _ in range(rng.randint(0, 4)))
    return {rng.choice(["a", "b", 1, (1, 2), ""]): literal(rng, depth + 1) for _ in range(rng.randint(0, 4))}


def settings(rng, folder):
    good = {"".join(rng.choice("abcdefg_XY") for _ in range(rng.randint(1, 8))): literal(rng) for _ in range(rng.randint(0, 12))}
    full = dict(good)
    for k in ("", ".a", " b", "0", "a b", "ü"):
        if rng.random() < 0.15:
            good[k] = full[k] = literal(rng)
    full.update({"self": object(), "_hidden": 1, "selfish": 3, "mod": os, "fun": len, "nested": [object()], "arr": np.arange(3)})
    want = {k: v for k, v in good.items() if not k.startswith(("_", "self"))}
    path = os.path.join(folder, "parameters.pydat")
    ut.write_setting(full, rng.choice([path, [folder, "parameters.pydat"], (folder, "parameters.pydat")]))
    expect("settings read differ from those written", repr(ut.read_setting(path)), repr(want))
    expect("dict_to_eval", repr(ut.dict_to_eval(full)), repr(want))
    old = open(path).read()
    ut.write_setting({"other": 1}, path)
    expect("existing settings were overwritten", open(path).read(), old)
    expect("settings of a missing file", ut.read_setting(path + ".no", rng.choice([True, False])), None)
    os.unlink(path)
    ig = rng.choice([("a",), "b", ("_", "X")])
    ut.write_setting(full, path, ig)
    expect("settings read differ from those written", repr(ut.read_setting(path)), repr({k: v for k, v in full.items() if not k.startswith(ig) and (k in good or k in ("_hidden", "selfish"))}))
    # command line
    names = ["budget_multiplier", "suite_name", "number_of_batches", "current_batch", "output_folder", "xyz"]
    chosen = rng.sample(names, rng.randint(0, 6))
    args, res = [], {}
    for n in chosen:
        short = n[:rng.randint(1, len(n))]
        while sum(o.startswith(short) for o in names) > 1:
            short = n[:len(short) + 1]
        v = rng.choice([1, 2.5, "bbob", "abc-def", -3, "1e3x", [1, 2], None, True, 10**20])
        args.append("%s=%s" % (rng.choice([n, short]), v))
        res[n] = v
    sp = None
    if rng.random() < 0.4:
        sp = {"batch": "current_batch/number_of_batches"}
        if "current_batch" not in res and "number_of_batches" not in res:
            args.insert(rng.randint(0, len(args)), "batch=3/11")
            res.update(current_batch=3, number_of_batches=11)
    got = ut.args_to_dict(args, rng.choice([names, tuple(names), dict.fromkeys(names)]), specials=sp)
    expect("command line arguments are read differently", sorted((k, repr(v)) for k, v in got.items()), sorted((k, repr(v)) for k, v in res.items()), args=args)
    for wrong in (["nonsense=1"], ["budget_multiplierx=1"], ["budget_multiplier=1", "budget_multiplier=2"], ["zz=1"], ["batch=1"], ["number_of_=1"]):
        try:
            ut.args_to_dict(args[:0] + wrong, names + ["number_of_trials"])
            bad("an unknown or contradictory argument is accepted", args=wrong)
        except ValueError:
            SEEN["refused argument"] += 1


def texts(rng, folder):
    for _ in range(300):
        s = rng.choice([rng.randint(0, 200), rng.randint(0, 10**6), rng.randint(0, 100) * 60, rng.randint(0, 100) * 3600])
        t = s + rng.choice([0, 0, 0.25, 0.5])
        expect("ascetime", ut.ascetime(t), "%dh%02d:%02d" % (s // 3600, s // 60 % 60, s % 60), seconds=t)
    for _ in range(100):
        s, d = rng.choice([rng.randint(0, 99), rng.randint(100, 10**5)]), rng.randint(1, 4)
        u = rng.choice([0, 1, 2, 3, 4, 64, 100, 512, 1023, 2**-5, 2**-10]) / 1024      # exact fractions
        frac = "%04d" % int(u * 10**4)
        got = ut.ascetime(s + u, d)
        m = re.fullmatch(r"(\d+)\.(\d*) sec", got) if s < 100 else re.fullmatch(r"(\d+h\d\d:\d\d)\.(\d*)", got)
        head = str(s) if s < 100 else "%dh%02d:%02d" % (s // 3600, s // 60 % 60, s % 60)
        expect("ascetime with decimals", bool(m and m.group(1) == head and (m.group(2) + "0000")[:d] == frac[:d]), True, seconds=s + u, decimals=d, text=got)
    seen, last, n = ut.SameFunction(), None, 0
    for _ in range(200):
        f, i, d = rng.randint(1, 3), rng.randint(1, 20), rng.choice([2, 3])
        if last and rng.random() < 0.7:
            f, d = last
        n = n + 1 if (f, d) == last else 0
        last = (f, d)
        expect("SameFunction", (seen("bbob_f%03d_i%02d_d%02d" % (f, i, d)), seen.count), (n, n + 1))
    suite, name = small_suite(rng, ("bbob", "bbob-biobj", "bbob-mixint"), 5)
    mp, want, out = ut.MiniPrint(), [], io.StringIO()
    heads = []
    prev = None
    with contextlib.redirect_stdout(out):
        for sweep in range(rng.randint(1, 2)):
            for p in suite:
                c = rng.choice("|:.") if name == "bbob" else rng.choice(":.")
                if c == "|":
                    p(optimum(p))
                if prev is None or p.dimension != prev[1] or p.index < prev[2]:
                    heads.append("%dD" % p.dimension)
                if prev is None or (p.id_function, p.dimension) != prev[:2] or p.index < prev[2]:
                    want.append("f%d" % p.id_function)
                prev = (p.id_function, p.dimension, p.index)
                want.append(c)
                mp(p, restarted=c == ":" or (c == "|" and rng.random() < 0.5))
    lines = out.getvalue().split("\n")
    expect("MiniPrint: dimensions", [l.split()[0] for l in lines if re.match(r"\d+D ", l)], heads, suite=name)
    expect("MiniPrint: symbols", re.findall(r"f\d+|[|:.]", "\n".join(l for l in lines if not re.match(r"\d+D ", l))), want, suite=name)
    si, out, want, cur, runs = ut.ShortInfo(), [], [], None, 0
    for p in suite:
        k = triple(p)
        s = si(p)
        f = p.id.split("_f")[1].split("_")[0]
        want.append((("d=%d, running: " % k[1] if cur is None or cur[1] != k[1] else "") + "f" + f) if cur != k[:2] else "")
        out.append(re.sub(r"^.*(?=d=\d+, running)", "", s, flags=re.S) if "running" in s else re.sub(r"^\(\d+\) *", "", s))
        if cur is not None and cur != k[:2]:
            expect("ShortInfo: runs", re.search(r"\((\d+)\)", s).group(1), str(runs))
            runs = 0
        cur = k[:2]
        n = rng.randint(1, 3)
        si.add_evals(rng.randint(1, 50), n)
        runs += n
    expect("ShortInfo", out, want, suite=name)


KINDS = dict(batches=batches, repeater=repeater, solver=solver, nonanytime=nonanytime, options=options, settings=settings, texts=texts)


def main():
    out, kind, seed, count, folder = sys.argv[1:6]
    import warnings
    warnings.simplefilter("ignore")
    ex.log_level("error")
    n = 0
    for k in range(int(count)):
        rng = random.Random("%s/%s/%d" % (kind, seed, k))
        d = os.path.join(folder, str(k))
        os.makedirs(d)
        os.chdir(d)
        np.random.seed(rng.randrange(2**31))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                KINDS[kind](rng, d)
        except Exception as e:
            bad("%s: %s raised" % (kind, type(e).__name__), trace=traceback.format_exc()[-380:], case=k)
        n += 1
        if len(BAD) >= 40:
            break
        os.chdir(folder)
        with open(out + ".n", "w") as f:
            f.write(str(k))
    with open(out, "w") as f:
        json.dump({"events": EVENTS[0], "cases": n, "seen": dict(SEEN), "bad": BAD}, f)


main()
