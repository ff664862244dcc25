"""The shipped tables, read independently of the code, and what they predict."""
import bisect, math
ALPHA = 0.0072973525693


def pairs(path):
    v = [float(x) for x in open(path).read().split()]
    n = int(v[0])
    return v[1:1 + 2 * n:2], v[2:2 + 2 * n:2]


def lerp(x, y, q):
    i = min(max(bisect.bisect_right(x, q) - 1, 0), len(x) - 2)
    return y[i] + (y[i + 1] - y[i]) * (q - x[i]) / (x[i + 1] - x[i])


class Tables:
    def __init__(self, d):
        self.h = pairs(d + "/hsokolov.table")
        self.t = pairs(d + "/pairprod.table")
        v = [float(x) for x in open(d + "/ksi_sokolov.table").read().split()]
        self.ne, self.nc, self.lo, self.hi = int(v[0]), int(v[1]), v[2], v[3]
        self.cdf = [v[4 + i * self.nc:4 + (i + 1) * self.nc] for i in range(self.ne)]
        self.cmin = [float(x) for x in open(d + "/chimin.table").read().split()][:self.ne]

    def emission(self, eta, gamma):
        """photons per unit time"""
        return math.sqrt(3) * ALPHA * eta * 10 ** lerp(*self.h, math.log10(eta)) / (2 * math.pi * gamma)

    def pair(self, chi, energy):
        return ALPHA * chi * 10 ** lerp(*self.t, math.log10(chi)) / energy

    def row(self, i, r):
        le = self.lo + i * (self.hi - self.lo) / (self.ne - 1)
        a = math.log10(self.cmin[i])
        d = (le - math.log10(2) - a) / (self.nc - 1)
        c = self.cdf[i]
        h = min(max(bisect.bisect_right(c, r), 1), len(c) - 1)
        return a + (h - 1) * d + ((r - c[h - 1]) / (c[h] - c[h - 1]) * d if c[h] > c[h - 1] else 0)

    def spectrum(self, eta, n=4000):
        """quantiles of log10 chi"""
        u = (math.log10(eta) - self.lo) / ((self.hi - self.lo) / (self.ne - 1))
        i = min(max(int(u), 0), self.ne - 2)
        f = u - i
        return [(1 - f) * self.row(i, k / n) + f * self.row(i + 1, k / n) for k in range(n + 1)]


def cdf(q, x):
    h = bisect.bisect_right(q, x)
    if h == 0:
        return 0.0
    if h >= len(q):
        return 1.0
    return (h - 1 + ((x - q[h - 1]) / (q[h] - q[h - 1]) if q[h] > q[h - 1] else 0)) / (len(q) - 1)


def ks(sample, f):
    """sqrt(n) times the largest distance between sample and distribution"""
    s = sorted(sample)
    n = len(s)
    return math.sqrt(n) * max(max(abs(f(x) - i / n), abs(f(x) - (i + 1) / n)) for i, x in enumerate(s)) if n else 0.0
