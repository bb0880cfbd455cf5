"""Plans of (suite, dimension, function, instance) cells and the differential comparison of two builds over them."""
import gen
from common import fl, close


def plan(ctx, per_suite, suites=None, max_dim=10 ** 9):
    """per_suite(suite, dim, rng) -> (functions, instances); yields one job per suite and dimension (split by function blocks)"""
    for s in suites or gen.SUITES:
        for d in gen.dims(s):
            if d > max_dim:
                continue
            fs, ins = per_suite(s, d)
            if not fs or not ins:
                continue
            block = 12 if d > 160 else 30
            for k in range(0, len(fs), block):
                yield s, d, fs[k:k + block], ins


def script(s, d, fs, ins, per_problem):
    cmds = [["suite", 0, s, "instances: " + ",".join(map(str, ins)), "dimensions: %d" % d]]
    cells = []
    for f in fs:
        for i in ([ins[0]] if s == "toy" else ins):
            cmds.append(["getfdi", 0, 0, f, d, i])
            cells.append((f, i, len(cmds)))
            cmds += per_problem(s, f, d, i)
            cmds.append(["pfree", 0])
    cmds.append(["suitefree", 0])
    return cmds, cells


def differ(a, b, rel, ab, loose=None):
    """first difference of two field lists (numbers within tolerance, anything else exactly);
    loose: b computed with other rounding errors"""
    if len(a) != len(b):
        return "number of fields %d vs %d" % (len(a), len(b))
    for k, (x, y) in enumerate(zip(a, b)):
        if x != y:
            try:
                if close(fl(x), fl(y), rel, ab):
                    continue
                if min(abs(fl(x)), abs(fl(y))) > 1e25 and .5 < fl(x) / fl(y) < 2:      # astronomically far out: sin and cos of that are rounding errors
                    continue
                if loose and len(loose) == len(b) and abs(fl(x) - fl(y)) <= 100 * abs(fl(y) - fl(loose[k])):
                    continue
            except ValueError:
                pass
            try:
                x, y = fl(x), fl(y)
            except ValueError:
                pass
            return "field %d is %r, reference %r" % (k, x, y)
    return None
