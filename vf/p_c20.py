"""C20: the final goodness-of-fit p-value is a function of the set of p-values."""
from concurrent.futures import ThreadPoolExecutor
from math import exp, sqrt

import numpy as np
from scipy.stats import kstwo

from .check import lib
from .p_c04 import dparts

ASSUMPTIONS = ["p-values are multiples of 1/4096 or 1/2^20", "the reference probabilities of a deviation come from an independent implementation (Durbin's matrix formula, scipy's Kolmogorov distribution, the asymptotic series)",
               "accuracy: 1e-6 for the exact methods, 0.003 for the asymptotic one; Kuiper's asymptotic formula is the reference for Kuiper"]
E9 = 10 ** 9


def qks(x):
    return 1.0 if x < .1 else 2 * sum((-1) ** (i - 1) * exp(-2 * i * i * x * x) for i in range(1, 200))


def qkuiper(x, n):
    if x < .2:
        return 1.0
    q = 2 * sum((4 * m * m * x * x - 1) * exp(-2 * m * m * x * x) for m in range(1, 200))
    p = 8 * x / (3 * sqrt(n)) * sum(m * m * (4 * m * m * x * x - 3) * exp(-2 * m * m * x * x) for m in range(1, 200))
    return min(1.0, max(0.0, q - p))


def durbin(n, d):
    """Durbin's matrix formula for P(D_n >= d), in floating point with a separate exponent."""
    k = int(n * d) + 1
    m = 2 * k - 1
    h = k - n * d
    fact = np.cumprod(np.concatenate(([1.0], np.arange(1.0, m + 2))))
    i, j = np.indices((m, m))
    H = np.where(i - j + 1 >= 0, 1.0, 0.0)
    H[:, 0] -= h ** np.arange(1, m + 1)
    H[m - 1, :] -= h ** np.arange(m, 0, -1)
    if 2 * h - 1 > 0:
        H[m - 1, 0] += (2 * h - 1) ** m
    H /= fact[np.maximum(i - j + 1, 0)]
    # n!/n^n spread over the power: every factor is scaled by e
    A, B, ea, eb, e = H, np.eye(m), 0, 0, n
    while e:
        if e & 1:
            B, eb = B @ A, eb + ea
            z = np.abs(B).max()
            if z == 0:
                return 1.0
            B, eb = B / z, eb + np.log(z)
        A, ea = A @ A, 2 * ea
        z = np.abs(A).max() or 1.0
        A, ea = A / z, ea + np.log(z)
        e >>= 1
    x = B[k - 1, k - 1]
    from math import lgamma, log
    return 1.0 if x <= 0 else 1 - x * exp(eb + lgamma(n + 1) - n * log(n))


def exact(n, d):
    if d <= 0:
        return 1.0
    return durbin(n, d) if n * d < 70 else float(kstwo.sf(d, n))


def reference(kind, n, v, G):
    """dev (integer units), the method's probability, tolerance, exact probability, tolerance"""
    s = sorted(v)
    if kind == 3:
        d = [s[i] * n - i * G for i in range(n)]
        dev = max(0, max(d)) + max(0, max(-x for x in d))
        x = dev / float(G * n)
        q = qkuiper((sqrt(n) + .155 + .24 / sqrt(n)) * x, n)
        return dev, q, 1000, q, 1000
    dev = max(abs(s[i] * (n + 1) - (i + 1) * G) for i in range(n))
    d = dev / float(G * (n + 1))
    ex = exact(n, d)
    if kind == 0 and n > 4999:
        return dev, qks((sqrt(n) + .12 + .11 / sqrt(n)) * d), 1000, ex, 3000000
    return dev, ex, 1000, ex, 1000


def run(c):
    R = c.rnd
    m = "SPECIFICATION Spec\nINVARIANTS SetOnly Mirror Even Bounds Lipschitz\nCONSTANTS N = %d\nG = %d\nBiased = %s\n"
    c.model("MDeviation", m % (3, c.n(6, 12), "FALSE"), min_states=100)
    c.model("MDeviation", m % (4, c.n(3, 6), "FALSE"), min_states=100)
    c.model_fails("MDeviation", m % (3, 3, "TRUE"))
    jobs = []

    def shape(n, G):
        k = R.randrange(9)
        if k == 0:
            v = [R.randint(0, G) for _ in range(n)]
        elif k == 1:
            v = [R.randrange(G) for _ in range(n)]
        elif k == 2:               # evenly spread, with some noise
            w = R.choice([0, 1, G // 50])
            v = [min(G, max(0, (i + 1) * G // (n + 1) + R.randint(-w, w))) for i in range(n)]
        elif k == 3:               # shifted by about the scale of the statistic
            z = R.uniform(-2.2, 2.2) / sqrt(n)
            v = [min(G, max(0, int(((i + 1) / (n + 1.0) + z) * G))) for i in range(n)]
        elif k == 4:               # one place
            x = R.choice([0, G, G // 2, R.randint(0, G)])
            v = [x] * n
        elif k == 5:               # two places
            a, b = R.randint(0, G), R.randint(0, G)
            v = [R.choice([a, b]) for _ in range(n)]
        elif k == 6:               # skewed
            z = R.uniform(.5, 2)
            v = [int(((i + .5) / n) ** z * G) for i in range(n)]
        elif k == 7:               # half of it empty
            v = [R.randint(0, G // 2) for _ in range(n)]
        else:                      # a uniform set with a few ones at the ends
            v = [R.randint(0, G) for _ in range(n)]
            for i in range(min(n, R.randint(1, 3))):
                v[i] = R.choice([0, G])
        R.shuffle(v)
        return v
    def add(kind, n, v, G):
        if kind == 2 or (kind == 1 and n > 1500):
            # the exact method takes time cubic in n*d
            s = sorted(v)
            d = max(abs(s[i] / float(G) - (i + 1.0) / (n + 1)) for i in range(n))
            if n * d > (60 if kind == 2 else 100) and not (kind == 1 and n * d * d > 3.76):
                return
        jobs.append((kind, n, v, G))
    for n in list(range(1, 13)) + [20, 50, 98, 99, 100, 101, 150]:
        for kind in (0, 1, 2, 3):
            for _ in range(c.n(7, 60)):
                G = R.choice([4096, 4096, 12 * 4096, 2 ** 20])
                add(kind, n, shape(n, G), G)
    for n in c.n([300, 1000, 2000], [200, 300, 500, 1000, 1500, 2000, 3000]):
        for kind in (0, 1, 2, 3):
            for _ in range(c.n(5, 20)):
                add(kind, n, shape(n, 4096), 4096)
    for n in c.n([4999, 5000, 5001, 6000], [4998, 4999, 5000, 5001, 6000, 8000, 10399, 10400, 12000]):
        for kind in (0, 0, 1, 3):
            for _ in range(c.n(4, 8)):
                add(kind, n, shape(n, 4096), 4096)
        add(0, n, [(i + 1) * 65536 // (n + 1) for i in range(n)], 65536)
        add(3, n, [i * 65536 // n for i in range(n)], 65536)
    # even spreads: no deviation at all
    for n in (2, 3, 4, 7, 8, 16):
        for kind in (0, 1, 2, 3):
            add(kind, n, [i * 3 * 5 * 7 * 17 * 16 for i in range(1, n + 1)], (n + 1) * 3 * 5 * 7 * 17 * 16)
            add(kind, n, [i * 16 for i in range(n)], 16 * n)
    # equal sets in different orders and by different methods
    for _ in range(c.n(15, 100)):
        n = R.choice([2, 3, 5, 10, 40])
        v = shape(n, 4096)
        for kind in (0, 1, 2, 3):
            w = list(v)
            R.shuffle(w)
            add(kind, n, w, 4096)

    def one(js):
        rows = lib(["ks %d %d %s" % (kind, n, " ".join(repr(x / float(G)) for x in v)) for kind, n, v, G in js], timeout=c.n(150, 800))
        out = []
        for (kind, n, v, G), o in zip(js, rows):
            p = o["p"]
            r = {"kind": kind, "n": n, "G": G, "v": v, "bits": dparts(p), "p": int(round(p * E9)) if abs(p) < 2 else 2 * E9,
                 "after": [int(round(x * G)) for x in o["v"]]}
            if n == 1:
                r["single"] = int(round(v[0] / float(G) * E9))
            else:
                dev, q, t, ex, et = reference(kind, n, v, G)
                r.update(dev=dev, q=int(round(q * E9)), tol=t, exact=int(round(ex * E9)), exacttol=et)
            out.append(r)
        return out
    with ThreadPoolExecutor(8) as ex:
        recs = [r for part in ex.map(one, [jobs[i::8] for i in range(8)]) for r in part]
    c.cases("TDeviation", recs, "p-value of a set", parts=6)
    c.cov["sets"] = len(recs)
    c.cov["largest_set"] = max(r["n"] for r in recs)
    small = [r for r in recs if 1 < r["n"] < 20]
    c.sample(small[0])
    for k, d in (("p", 3000), ("dev", 1)):
        b = dict(small[0])
        b[k] += d
        c.cases_rejected("TDeviation", [b])
