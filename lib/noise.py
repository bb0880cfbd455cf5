"""Independent model of the noisy suite: legacy random streams, the three noise models and the boundary penalty."""
import math


def unif(n, seed):
    seed = max(1, abs(seed))
    cur = seed
    tab = [0] * 32
    for i in range(39, -1, -1):
        t = cur // 127773
        cur = 16807 * (cur - t * 127773) - 2836 * t
        if cur < 0:
            cur += 2147483647
        if i < 32:
            tab[i] = cur
    last = tab[0]
    out = []
    for _ in range(n):
        t = cur // 127773
        cur = 16807 * (cur - t * 127773) - 2836 * t
        if cur < 0:
            cur += 2147483647
        t = last // 67108865
        last = tab[t]
        tab[t] = cur
        r = last / 2.147483647e9
        out.append(r if r != 0 else 1e-99)
    return out


def gauss1(seed):
    u = unif(2, seed)
    g = math.sqrt(-2 * math.log(u[0])) * math.cos(2 * math.pi * u[1])
    return g if g != 0 else 1e-99


class Streams:
    """the two global noise streams; reset() as after resetting the seeds"""
    _u, _g = {}, {}

    def __init__(self):
        self.reset()

    def reset(self):
        self.su = self.sn = 30

    def u(self):
        self.su += 1
        if self.su not in self._u:
            self._u[self.su] = unif(1, self.su)[0]
        return self._u[self.su]

    def g(self):
        self.sn += 1
        if self.sn not in self._g:
            self._g[self.sn] = gauss1(self.sn)
        return self._g[self.sn]


def kind(f):
    return "guc"[(f - 101) % 3]


def moderate(f):
    return f <= 106


def draw(st, f, d):
    """the random part of one evaluation, as a function of the noise-free value and f_opt"""
    k = kind(f)
    if k == "g":
        beta = 0.01 if moderate(f) else 1.0
        fac = math.exp(beta * st.g())
        return lambda v, fopt: (v - fopt) * fac + fopt
    if k == "u":
        a = (0.01 if moderate(f) else 1.0) * (0.49 + 1.0 / d)
        beta = 0.01 if moderate(f) else 1.0
        u1, u2 = st.u(), st.u()

        def fu(v, fopt):
            y = v - fopt
            return y * u1 ** beta * max(1.0, (1e9 / (y + 1e-99)) ** (a * u2)) + fopt
        return fu
    a, p = (0.01, 0.05) if moderate(f) else (1.0, 0.2)
    u, g1, g2 = st.u(), st.g(), st.g()
    c = max(0.0, a * (1e3 + (g1 / abs(g2 + 1e-199)) if u < p else 1e3))
    return lambda v, fopt: v + c


def penalty(x):
    return 100.0 * sum(max(0.0, abs(t) - 5.0) ** 2 for t in x)


def noisy(st, f, x, v, fopt):
    return draw(st, f, len(x))(v, fopt) + 1.01e-8 + penalty(x)


# noise-free counterpart in the bbob suite: (first function, bbob function, only valid inside of the region of interest)
BASE = {}
for first, b, inside in ((101, 1, False), (104, 8, False), (107, 1, False), (110, 8, False), (113, 7, True), (119, 14, False), (122, 17, True), (128, 21, True)):
    for q in range(3):
        BASE[first + q] = (b, inside)
