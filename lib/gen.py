"""Random workload generators shared by several checks: suites, option strings, API programs."""
import math

SUITES = {
    # name: (number of functions, first function number, dimensions, default instances, id template)
    "toy": (6, 1, [2, 3, 5, 10, 20], "1", None),
    "bbob": (24, 1, [2, 3, 5, 10, 20, 40], "1-5,71-80", "bbob_f%03d_i%02d_d%02d"),
    "bbob-boxed": (24, 1, [2, 3, 5, 10, 20, 40], "1-5,101-110", "bbob-boxed_f%03d_i%02d_d%02d"),
    "bbob-largescale": (24, 1, [20, 40, 80, 160, 320, 640], "1-15", "bbob_f%03d_i%02d_d%04d"),
    "bbob-constrained": (54, 1, [2, 3, 5, 10, 20, 40], "1-15", "bbob-constrained_f%03d_i%02d_d%02d"),
    "bbob-constrained-active-only": (54, 1, [2, 3, 5, 10, 20, 40], "1-15", "bbob-constrained-active-only_f%03d_i%02d_d%02d"),
    "bbob-constrained-no-disguise": (54, 1, [2, 3, 5, 10, 20, 40], "1-15", "bbob-constrained-no-disguise_f%03d_i%02d_d%02d"),
    "bbob-mixint": (24, 1, [5, 10, 20, 40, 80, 160], "1-15", "bbob-mixint_f%03d_i%02d_d%02d"),
    "bbob-noisy": (30, 101, [2, 3, 5, 10, 20, 40], "1-15", "bbob_noisy_f%d_i%02d_d%02d"),
    "bbob-biobj": (55, 1, [2, 3, 5, 10, 20, 40], "1-15", "bbob-biobj_f%02d_i%02d_d%02d"),
    "bbob-biobj-ext": (92, 1, [2, 3, 5, 10, 20, 40], "1-15", "bbob-biobj_f%02d_i%02d_d%02d"),
    "bbob-biobj-mixint": (92, 1, [5, 10, 20, 40, 80, 160], "1-15", "bbob-biobj-mixint_f%03d_i%02d_d%03d"),
}
SINGLE = [s for s in SUITES if "biobj" not in s and s != "toy"]
BIOBJ = [s for s in SUITES if "biobj" in s]
TOY_NAMES = ["sphere", "ellipsoid", "rastrigin", "bueche-rastrigin", "linear_slope", "rosenbrock"]


def expand(spec):
    out = []
    for p in spec.split(","):
        if "-" in p:
            a, b = p.split("-")
            out += list(range(int(a), int(b) + 1))
        else:
            out.append(int(p))
    return out


def functions(suite):
    n, first, _, _, _ = SUITES[suite]
    return list(range(first, first + n))


def dims(suite):
    return list(SUITES[suite][2])


def value(rng, k=None):
    """a coordinate from a hostile distribution"""
    r = rng.random()
    if r < 0.55:
        return rng.uniform(-5, 5)
    if r < 0.7:
        return float(rng.randint(-6, 6))
    if r < 0.8:
        return rng.uniform(-100, 100)
    if r < 0.86:
        return rng.gauss(0, 1) * 10 ** rng.uniform(-9, 9)
    if r < 0.9:
        return rng.choice([0.0, -0.0, 5.0, -5.0, 0.5, 1e-300, 5e-324, -1e-12, 1e17, -1e155, 1e200, 1e307, -1.7976931348623157e308])
    return rng.uniform(-1, 1)


def point(rng, d, limit=None):
    """limit: largest magnitude, needed where an observer writes integer variables as int (beyond that it stops with a fatal error)"""
    if limit:
        return [max(-limit, min(limit, v)) for v in point(rng, d)]
    r = rng.random()
    if r < 0.5:
        return [rng.uniform(-5, 5) for _ in range(d)]
    if r < 0.6:
        return [rng.uniform(-100, 100) for _ in range(d)]
    if r < 0.7:
        return [float(rng.randint(-3, 17)) for _ in range(d)]
    if r < 0.75:
        return [0.0] * d
    if r < 0.79:  # values and constraints overflow
        return [rng.choice([1.7e308, -1.7e308, 1e200, -1e200, 0.0, float(rng.randint(-5, 5))]) for _ in range(d)]
    return [value(rng) for _ in range(d)]


def ranges(rng, values):
    """spell a list of values as a comma separated list with ranges; returns (text, list)"""
    out, text = [], []
    i = 0
    while i < len(values):
        j = i
        while j + 1 < len(values) and values[j + 1] == values[j] + 1:
            j += 1
        if j > i and rng.random() < 0.7:
            text.append("%d-%d" % (values[i], values[j]))
            i = j + 1
        else:
            text.append("%d" % values[i])
            i += 1
    return ",".join(text)
