"""Executable specification of suite construction: which problems a suite name, an instance string and an option string select."""
import gen

YEARS = {
    "bbob": lambda y: ("1-5,101-110" if y >= 2023 else "1-5,91-100" if y >= 2021 else "1-5,71-80" if y >= 2018 else
                       "1-5,61-70" if y == 2017 else "1-5,51-60" if y in (2016, 0) else "1-5,41-50" if y == 2015 else
                       "1-5,31-40" if y in (2013, 2014) else "1-5,21-30" if y == 2012 else "1-15" if y in (2010, 2011) else
                       "1-5,1-5,1-5" if y == 2009 else None),
    "bbob-boxed": lambda y: "1-5,101-110" if y == 2023 else "1-15" if y == 0 else None,
    "bbob-biobj": lambda y: "1-10" if y in (2016, 0) else "1-15",
    "bbob-biobj-ext": lambda y: "1-10" if y in (2016, 0) else "1-15",
    "bbob-biobj-mixint": lambda y: "1-15",
    "bbob-mixint": lambda y: "1-15",
}


def expected_id(suite, f, i, d):
    if suite == "toy":
        return "%s_d%02d" % (gen.TOY_NAMES[f - 1], d)
    return gen.SUITES[suite][4] % (f, i, d)


class Selection:
    """instances/functions/dimensions hold 0 at filtered positions, as the library documents"""

    def __init__(self, suite, instances, keep_f=None, keep_d=None, keep_i=None, dimensions=None):
        self.suite = suite
        self.all_i = list(instances)
        self.all_f = gen.functions(suite)
        self.all_d = gen.dims(suite)
        sel = lambda vals, keep: [v if keep is None or k + 1 in keep else 0 for k, v in enumerate(vals)]
        self.i, self.f, self.d = sel(self.all_i, keep_i), sel(self.all_f, keep_f), sel(self.all_d, keep_d)
        if dimensions is not None:
            self.d = [v if v in dimensions else 0 for v in self.d]

    @property
    def total(self):
        return len(self.i) * len(self.f) * len(self.d)

    def index(self, fi, di, ii):
        return ii + fi * len(self.i) + di * len(self.i) * len(self.f)

    def triples(self):
        """(index, f, d, i) in the documented order: by dimension, then function, then instance"""
        for di, d in enumerate(self.d):
            for fi, f in enumerate(self.f):
                for ii, i in enumerate(self.i):
                    if d and f and i:
                        yield self.index(fi, di, ii), f, d, i


def spell_indices(rng, n):
    """a random index filter over 1..n; returns (text, set of kept indices)"""
    parts, keep = [], set()
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        k = rng.random()
        a = rng.randint(1, n)
        b = rng.randint(a, min(n, a + 4))
        if k < 0.45:
            parts.append("%d" % a)
            keep.add(a)
        elif k < 0.8:
            parts.append("%d-%d" % (a, b))
            keep |= set(range(a, b + 1))
        elif k < 0.87:
            a = rng.randint(1, min(3, n))
            parts.append("-%d" % a)
            keep |= set(range(1, a + 1))
        elif k < 0.94:
            a = rng.randint(max(1, n - 2), n)
            parts.append("%d-" % a)
            keep |= set(range(a, n + 1))
        else:
            a = rng.randint(max(1, n - 2), n)
            parts.append("%d-%d" % (a, n + rng.randint(1, 50)))
            keep |= set(range(a, n + 1))
    return (rng.choice([",", ", ", " , ", ","])).join(parts), keep


def spell_instances(rng, suite):
    hi = 15 if "biobj" in suite else rng.choice([5, 20, 120, 999])
    vals = []
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        a = rng.randint(1, hi)
        if rng.random() < 0.5:
            parts.append("%d" % a)
            vals.append(a)
        else:
            b = min(hi, a + rng.randint(0, 5))
            parts.append("%d-%d" % (a, b))
            vals += list(range(a, b + 1))
    if rng.random() < 0.08:
        parts.append("-3")
        vals += [1, 2, 3]
    return rng.choice([",", ",", " ,", ", "]).join(parts), vals


def default_instances(suite):
    return gen.expand(gen.SUITES[suite][3])


def random_selection(rng, suite=None, max_dim=40):
    """returns (instance string, option string, Selection or None if the library must refuse)"""
    suite = suite or rng.choice(list(gen.SUITES))
    colon = rng.choice([": ", ":", ":  "])
    # --- instances
    k = rng.random()
    ytext = None
    if k < 0.15:
        inst, vals = rng.choice(["NULL", ""]), default_instances(suite)
    elif k < 0.35 and suite in YEARS:
        while True:
            y = rng.choice([2009, 2010, 2011, 2012, 2013, 2014, 2015, 2016, 2017, 2018, 2019, 2020, 2021, 2022, 2023, 2024, 2025])
            spec = YEARS[suite](y)
            if spec:
                break
        inst, vals = "year%s%d" % (colon, y), gen.expand(spec)
        if rng.random() < 0.3:
            inst += " instances: 7-9"
            if rng.random() < 0.5:
                inst = " " + inst
    elif k < 0.4:
        inst, vals = rng.choice(["foo: 3", "instance 4", "1-4", "instances: x"]), default_instances(suite)
    else:
        t, vals = spell_instances(rng, suite)
        inst = "instances%s%s" % (colon, t)
        if rng.random() < 0.15 and suite in YEARS:
            inst += " year: 2016"
    # --- options
    kw, parts = {}, []
    if rng.random() < 0.85:
        t, kw["keep_f"] = spell_indices(rng, gen.SUITES[suite][0])
        parts.append("function_indices%s%s" % (colon, t))
    if rng.random() < 0.5:
        t, kw["keep_i"] = spell_indices(rng, len(vals))
        parts.append("instance_indices%s%s" % (colon, t))
    ds = gen.dims(suite)
    small = [d for d in ds if d <= max_dim] or ds[:1]
    r = rng.random()
    chosen = sorted(rng.sample(small, rng.randint(1, min(3, len(small)))))
    if rng.random() < 0.2:
        rng.shuffle(chosen)
    listed = list(chosen)
    if rng.random() < 0.2 and ds[0] + 2 < ds[-1]:
        extra = rng.choice([v for v in range(ds[0], ds[-1]) if v not in ds])
        listed.insert(rng.randint(0, len(listed)), extra)
    dtext = "dimensions%s%s" % (colon, rng.choice([",", ", "]).join(map(str, listed)))
    idxs = sorted({ds.index(rng.choice(small)) + 1 for _ in range(rng.randint(1, 2))})
    itext = "dimension_indices%s%s" % (colon, ",".join(map(str, idxs)))
    first_wins = None
    if r < 0.5:
        parts.append(dtext)
        kw["dimensions"] = set(listed)
    elif r < 0.9:
        parts.append(itext)
        kw["keep_d"] = set(idxs)
    else:
        parts.append(dtext)
        parts.append(itext)
        first_wins = True
    rng.shuffle(parts)
    if first_wins:
        a, b = parts.index(dtext), parts.index(itext)
        if a < b:
            kw["dimensions"] = set(listed)
        else:
            kw["keep_d"] = set(idxs)
    if rng.random() < 0.15:
        parts.insert(rng.randint(0, len(parts)), "unknown_key: 17")
    opts = rng.choice([" ", "  ", " "]).join(parts)
    sel = Selection(suite, vals, **kw)
    if not any(sel.d):
        sel = None
    return suite, inst, opts, sel
