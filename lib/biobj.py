"""Which single-objective functions and instances a bi-objective problem consists of (the documented tables)."""
SEL = [1, 2, 6, 8, 13, 14, 15, 17, 20, 21]
PAIRS = [(a, b) for k, a in enumerate(SEL) for b in SEL[k:]]
PAIRS += [(1, 3), (1, 4), (1, 5), (2, 3), (2, 4), (2, 5), (3, 4), (3, 5), (4, 5),
          (6, 7), (6, 9), (7, 8), (7, 9), (8, 9),
          (10, 11), (10, 12), (10, 13), (10, 14), (11, 12), (11, 13), (11, 14), (12, 13), (12, 14),
          (15, 18), (15, 19), (17, 18), (17, 19), (18, 19),
          (20, 22), (20, 23), (20, 24), (21, 22), (21, 23), (21, 24), (22, 23), (22, 24), (23, 24)]
assert len(PAIRS) == 92
INST = {1: (2, 4), 2: (3, 5), 3: (7, 8), 4: (9, 10), 5: (11, 12), 6: (13, 14), 7: (15, 16), 8: (17, 18), 9: (19, 21),
        10: (21, 22), 11: (23, 24), 12: (25, 26), 13: (27, 28), 14: (29, 30), 15: (31, 34)}
SCALE = [1, 1e-3, 1e-1, 1e-1, 1, 1e-2, 1, 1e-2, 1e-2, 1e-3, 1e-2, 1e-4, 1e-1, 1, 1e-1, 1, 10, 1, 10, 1e-1, 1, 1, 10, 1e-1]
CARD = [2, 4, 8, 16]


def cardinality(k, d):
    """levels of variable k in dimension d, 0: continuous"""
    j = k // (d // 5)
    return CARD[j] if j < 4 else 0


def discretize(x, xopt):
    """the documented mapping of an outer point to the continuous problem with optimum xopt"""
    import math
    d = len(x)
    out = list(x)
    for k in range(d):
        n = cardinality(k, d)
        if not n:
            continue
        lo, up = -4 + 8 / (n + 1), 4 - 8 / (n + 1)
        ko = math.floor((n - 1) * (xopt[k] - lo) / (up - lo) + 1e-7 + 0.5)
        ko = min(max(ko, 0), n - 1)
        off = lo + (up - lo) * ko / (n - 1) - xopt[k]
        v = x[k]
        v = min(max(math.floor(v + 0.5), 0), n - 1)
        out[k] = lo + (up - lo) * v / (n - 1) - off
    return out
