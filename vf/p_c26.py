"""C26: overlapping orders, geometry, transform, trees: the tests evaluate their statistic on the stream they are given."""
from concurrent.futures import ThreadPoolExecutor
from itertools import permutations
from math import cos, exp, factorial, isqrt, log, pi, sqrt

import numpy as np

from . import streams
from .check import Violation, lib
from .p_c20 import exact
from .streams import E9, Q, phi, probs

ASSUMPTIONS = ["operm5: no two of five successive outputs are equal (their order is not defined); the covariance of the 120 counts is derived here "
               "from all orders of up to nine values",
               "closest pair: generators of up to 26 bits, so that squared distances are exact integers",
               "parking: generators of up to 24 bits",
               "sums: 16-bit grid; dct: windows whose largest coefficient stands out by more than the rounding of the specification's cosine table; "
               "window length a power of two",
               "trees: at least 100 (filltree) or 320 (filltree2) samples, a multiple of 16, no 64 values of one tree zero",
               "expected frequencies of tree sizes are those the tests name, up to their printed digits"]


def ksp(x):
    s = sorted(x)
    n = len(s)
    return exact(n, max(abs(s[i] - (i + 1.0) / (n + 1)) for i in range(n)))


# ------------------------------------------------------------------ operm5
PINV = []


def covariance():
    if PINV:
        return PINV[0]
    code = np.array([625, 125, 25, 5, 1])
    names = sorted(int(np.dot(p, code)) for p in permutations(range(5)))
    lut = np.zeros(3125, dtype=int)
    lut[names] = range(120)
    C = np.zeros((120, 120))
    for lag in range(5):
        P = np.array(list(permutations(range(5 + lag))), dtype=np.int8)

        def which(x):
            return lut[np.argsort(np.argsort(x, axis=1), axis=1) @ code]
        M = np.zeros((120, 120))
        np.add.at(M, (which(P[:, :5]), which(P[:, lag:lag + 5])), 1.0 / len(P))
        M -= 1 / 14400.
        C += M if lag == 0 else M + M.T
    PINV.append((names, np.linalg.pinv(C, rcond=1e-9, hermitian=True)))
    return PINV[0]


def operm(R, w, T, overlap):
    names, pinv = covariance()
    vs = []
    kind = R.choice([0, 0, 1, 2])
    n = T + 4 if overlap else 5 * T + 5
    while len(vs) < n:
        x = R.getrandbits(w)
        if kind == 1 and vs and R.random() < .03:
            x = min((1 << w) - 1, vs[-1] + R.randint(1, 3))
        if kind == 2 and len(vs) > 20 and R.random() < .1:
            x = vs[-R.randint(5, 20)]
        if x not in vs[-4:]:
            vs.append(x)

    def rec(o):
        a = np.array(vs)
        win = np.stack([a[i:n - 4 + i] for i in range(5)], axis=1)
        win = win[:T] if overlap else win[5::5][:T]
        h = streams.tally([int(x) for x in (np.argsort(np.argsort(win, axis=1), axis=1) @ np.array([625, 125, 25, 5, 1]))])
        d = dict(map(tuple, h))
        x = np.array([d.get(z, 0) for z in names]) - T / 120.
        q = Q(96, abs(x @ pinv @ x) / T) if overlap else Q(119, float(x @ x) / (T / 120.))
        return probs({"f": "operm", "s": vs, "T": T, "overlap": bool(overlap), "h": h, "tol": 2000}, o["p"][0], [q])
    return vs, w, 1, T, 0, rec, overlap


# ------------------------------------------------------------------ closest pair
def geometry(R, test, d, n):
    """points whose closest pair is about as close as a random one"""
    side = {11: 10000., 12: 1000.}.get(test, 1.)
    vol = {2: pi, 3: 4 * pi / 3, 4: pi * pi / 2, 5: 8 * pi * pi / 15}[d]
    if test == 11:
        frac = sqrt(R.uniform(.02, 3)) / side
    elif test == 12:
        frac = R.uniform(3, 90) ** (1 / 3.) / side
    else:
        frac = (R.uniform(.05, 2.5) * 2 / (vol * n * max(1, n - 1))) ** (1. / d)
    w = 26
    while frac * (1 << w) > 15000 or (1 << w) * 3 ** .5 * frac > 30000:
        w -= 1
    w = max(w, 10)
    G = 1 << w
    r0 = max(2, int(frac * G))
    pts = [[R.randrange(1, G) for _ in range(d)] for _ in range(n)]
    close = R.choice([1, 1, 1, 2, 3, 0]) if n > 1 else 0
    for _ in range(close):
        i, j = R.choice([R.sample(range(n), 2), R.sample(range(n), 2), [0, n - 1], [n - 1, 0], [0, R.randrange(1, n)], [n - 1, R.randrange(n - 1)]])
        kind = R.choice("axyrz")
        if kind == "a":
            v = [R.gauss(0, 1) for _ in range(d)]
        elif kind == "x":
            v = [1.0] + [.05 * R.random()] * (d - 1)
        elif kind == "y":
            v = [0.0] * (d - 1) + [1.0]
        else:
            v = [R.choice([-1., 1.]) * R.random() for _ in range(d)]
        s = R.uniform(.3, 1) * r0 / sqrt(sum(x * x for x in v))
        if kind == "z" and R.random() < .3:
            s = 0
        pts[j] = [min(G - 1, max(1, a + int(round(s * x)))) for a, x in zip(pts[i], v)]
        if R.random() < .2:             # at the edge
            e = R.choice([1, G - 1])
            pts[i][0] = pts[j][0] = e
        elif n >= 100 and R.random() < .6:     # others whose first coordinate lies between theirs
            for p in R.sample(pts, R.choice([3, 10, 30, 60])):
                if p is not pts[i] and p is not pts[j]:
                    p[0] = min(pts[i][0], pts[j][0]) + R.randint(0, abs(pts[i][0] - pts[j][0]))
    if n >= 10 and R.random() < .4:     # a pair, and behind it a slightly closer one that lies along the first coordinate
        i, j, k, m = R.sample(range(n), 4)
        if pts[i][0] > pts[k][0]:
            i, k = k, i
        v = [R.gauss(0, 1) for _ in range(d)]
        f = r0 * R.uniform(.3, .8)
        s = f * R.choice([1.002, 1.02, 1.05]) / sqrt(sum(x * x for x in v))
        pts[j] = [min(G - 1, max(1, a + int(round(s * x)))) for a, x in zip(pts[i], v)]
        pts[m] = [min(G - 1, pts[k][0] + int(f))] + pts[k][1:]
    a = np.array(pts, dtype=np.int64)
    o = np.argsort(a[:, 0], kind="stable")
    b = a[o]
    best, pair = None, None
    hi0 = 0
    for i in range(n - 1):
        lim = isqrt(best) if best is not None else 30000
        h = int(np.searchsorted(b[:, 0], b[i, 0] + lim, side="right"))
        if h > i + 1:
            dd = ((b[i + 1:h] - b[i]) ** 2).sum(axis=1)
            j = int(dd.argmin())
            if best is None or dd[j] < best:
                best, pair = int(dd[j]), (i, i + 1 + j)
    if best is None or best > 3 * 10 ** 8:
        return geometry(R, test, d, n)
    r = isqrt(best)
    r += r * r < best
    hi = [int(x) for x in np.searchsorted(b[:, 0], b[:, 0] + r, side="right")]
    u = [0] * n
    for i, x in enumerate(o):
        u[int(x)] = i + 1
    s = []
    for p in pts:
        for x in p:
            if R.random() < .02:
                s.append(0)             # an output of zero is no coordinate
            s.append(x)
    m = best
    dist = sqrt(m) / G * side
    if test == 11:
        q = 1 - exp(-dist * dist / .995)
    elif test == 12:
        q = 1 - exp(-dist ** 3 / 30)
    else:
        v = vol * dist ** d
        q = 1 - exp(-n * (n - 1) * v / 2) * (1 + (2 + {2: .4135, 3: .5312, 4: .6202, 5: 1.3789}[d]) / 6 * n ** 3 * v * v)
        if not 0 <= q <= 1:
            return geometry(R, test, d, n)

    def rec(out):
        return probs({"f": "sphere", "s": s, "d": d, "n": n, "m": m, "r": r, "o": [int(x) + 1 for x in o], "u": u, "hi": hi,
                      "pair": [int(o[pair[0]]) + 1, int(o[pair[1]]) + 1], "tol": 500}, out["p"][0], [q])
    return s, w, test, n, d if test == 201 else 0, rec, 1


# ------------------------------------------------------------------ parking lot
def parking(R, w):
    G = 1 << w
    kind = R.choice([0, 0, 1, 2, 3])
    s = [R.randrange(G) for _ in range(24000)]
    for i in range(1, R.choice([600, 1200]), 2):     # in the empty lot: near the car before, in all directions
        a, b = R.choice([G // 100, G // 100 + 1, G // 100 - 1]), R.randrange(G // 60)
        for k, x in zip(R.choice([(0, 1), (1, 0)]), (a, b)):
            s[2 * i + k] = max(0, min(G - 1, s[2 * i - 2 + k] + R.choice([-1, 1]) * x))
    if kind == 1:                       # next to a car: just too near, just far enough
        for i in range(2000, 12000, R.randint(5, 50)):
            j = R.randrange(i)
            for k in (0, 1):
                s[2 * i + k] = max(0, min(G - 1, s[2 * j + k] + R.choice([-1, 1]) * R.choice([G // 100, G // 100 + 1, R.randrange(G // 50)])))
    if kind == 2:                       # edges
        for i in range(0, 24000, R.randint(20, 70)):
            s[i] = R.choice([0, G - 1, G // 100, G - 1 - G // 100])
    if kind == 3:
        m = R.randrange(9000, 12000) * 2
        s = [s[i % m] for i in range(24000)]

    def rec(o):
        cells, k = {}, 0
        for i in range(12000):
            x, y = s[2 * i], s[2 * i + 1]
            cx, cy = 100 * x // G, 100 * y // G
            if any((a, b) in cells and 100 * abs(cells[a, b][0] - x) <= G and 100 * abs(cells[a, b][1] - y) <= G
                   for a in (cx - 1, cx, cx + 1) for b in (cy - 1, cy, cy + 1)):
                continue
            cells[cx, cy] = (x, y)
            k += 1
        return probs({"f": "parking", "s": s, "G": G, "k": k, "tol": 500}, o["p"][0], [phi((3523 - k) / 21.9)])
    return s, w, 10, R.choice([12000, 12000, 100]), 0, rec, 1


# ------------------------------------------------------------------ sums
def sums(R, w, m):
    g = min(w, 16)
    kind = R.choice([0, 0, 0, 1, 2])
    s = [R.getrandbits(g) for _ in range(2 * m - 1)]
    if kind == 1:
        s = [min(x, R.getrandbits(g)) if R.random() < .05 else x for x in s]
    if kind == 2:
        s = [(i * 40503 + R.getrandbits(g - 3)) & ((1 << g) - 1) for i in range(2 * m - 1)]

    def rec(o):
        S = [sum(s[:m])]
        for t in range(m - 1):
            S.append(S[-1] - s[t] + s[t + m])
        y = [(x / float(1 << g) - .5 * m) * sqrt(12) for x in S]
        x = [y[0] / sqrt(m)]
        x.append(-x[0] * (m - 1) / sqrt(2 * m - 1.) + y[1] * sqrt(m / (2 * m - 1.)))
        for t in range(2, m):
            a = 2. * m + 1 - t
            b = 2 * a - 2
            x.append(y[t - 2] / sqrt(a * b) - y[t - 1] * sqrt((a - 1) / (b + 2)) + y[t] * sqrt(a / b))
        return probs({"f": "sums", "s": s, "T": m, "y": S, "tol": 1000}, o["p"][0], [ksp([phi(z) for z in x])])
    return [x << (w - g) for x in s], w, 14, m, 0, rec, 1


# ------------------------------------------------------------------ cosine transform
def turn(x, n, w):
    n %= w
    return ((x << n) | (x >> (w - n))) & ((1 << w) - 1)


def table(n):
    return [int(round(1e4 * cos(pi * i / (2 * n)))) for i in range(n + 1)]


MATS = {}


def mat(n):
    if n not in MATS:
        MATS[n] = np.cos(pi * np.outer(np.arange(n), 2 * np.arange(n) + 1) / (2. * n))
    return MATS[n]


def halves(x, w):
    return [x >> 16, x & 65535] if w == 32 else x


def quarter(T):
    return max(1, T // 4)


def dct(R, w, length, T, nt):
    n = length
    M = mat(n)
    wins, pos = [], []
    want = list(range(n)) * (T // n + 1)
    nwin = min(T, max(n, 300)) if n < 128 else 2 * n
    have = {}
    tries = 0
    while len(wins) < nwin and tries < 200000:
        tries += 1
        if n >= 128:                    # few outputs away from the middle
            d = [2047 + R.randrange(2) for _ in range(n)]
            k = R.randrange(n)
            for j in R.sample(range(n), 12):
                a = M[k, j]
                d[j] = int(2048 + (2000 if a > 0 else -2000) * min(1, abs(a) * 1.2) + R.randint(-40, 40))
        else:
            d = [R.getrandbits(12) for _ in range(n)]
        d = [min(4095, max(0, x)) for x in d]
        if w < 12:
            d = [x >> (12 - w) << (12 - w) for x in d]
        z = 2 * np.array(d) - (4096 - (1 << 12 - w) if w < 12 else 4095)
        c = M @ z * 1e4
        c[0] /= sqrt(2)
        a = np.abs(c)
        order = np.argsort(a)
        big = np.abs(z) > 4
        err = 1e4 * np.abs(z[~big]).sum() + np.abs(z[big]).sum() + (0 if w <= 12 else 20000 * n) + 300000
        if a[order[-1]] - a[order[-2]] < 2 * err + 1e-3 * a[order[-1]]:
            continue
        p = int(order[-1])
        if have.get(p, 0) >= max(1, nwin // n + R.choice([0, 1, 2])):
            continue
        have[p] = have.get(p, 0) + 1
        lo = max(0, w - 12)
        wins.append([(x << lo | R.getrandbits(lo)) if lo else x >> (12 - w) for x in d])
        pos.append(p)
    bypos = {}
    for i, p in enumerate(pos):
        bypos.setdefault(p, []).append(i)
    seq = [R.choice(bypos[R.choice(list(bypos))]) if R.random() < .5 else R.randrange(len(wins)) for _ in range(T)]
    if R.random() < .6:                 # spread as evenly as a random stream
        ks = list(bypos)
        seq = [R.choice(bypos[ks[(i * 7 + R.choice([0, 0, 0, 1])) % len(ks)]]) for i in range(T)]
    R.shuffle(seq)
    s, raw, keep = [], [], {}
    for j in range(T):
        k = (w // 4) * (j // quarter(T)) % w
        x = [turn(v, (w - k) % w, w) for v in wins[seq[j]]]
        if j in (0, T - 1) or j % quarter(T) in (0, quarter(T) - 1):
            raw.append([j, [halves(v, w) for v in x]])
        s += x

    def rec(o):
        h = [0] * n
        for j in seq:
            h[pos[j]] += 1
        chi = sum((x - T / n) ** 2 / (T / n) for x in h)
        return probs({"f": "dct", "T": T, "w": w, "len": n, "C": table(n), "win": [[halves(v, w) for v in x] for x in wins], "pos": pos,
                      "seq": [x + 1 for x in seq], "raw": raw, "h": h, "tol": 500}, o["p"][0], [Q(n - 1, chi)])
    return s, w, 206, T, nt, rec, 1


def dctall(R, w, n, T):
    s = [R.getrandbits(w) for _ in range(T * n)]

    def rec(o):
        M = mat(n)
        v = 1 << (w - 1)
        sd = sqrt(n / 6.) * v
        xs, ps = [], []
        for j in range(T):
            k = (w // 4) * (j // quarter(T)) % w
            d = np.array([turn(x, k, w) for x in s[j * n:j * n + n]], dtype=float) - (v - .5)
            c = M @ d
            ps += [phi(x / sd / (sqrt(2) if i == 0 else 1)) for i, x in enumerate(c)]
            xs += [int(round(x * 2e4 * 2. ** (12 - w))) for x in M @ (d + (v - .5) - (v - .5 * 2 ** (w - 12) if w < 12 else v - .5))]
        return probs({"f": "dctall", "s": s, "T": T, "w": w, "len": n, "C": table(n), "x": xs, "tol": 1000}, o["p"][0], [ksp(ps)])
    return s, w, 206, T, n, rec, 1


# ------------------------------------------------------------------ trees
def binary(levels):
    """the chance that k values in random order fit into a search tree of that many levels and one more does not"""
    n = 2 ** levels
    fit = [1.0] + [0.0] * n             # no level: nothing fits
    for _ in range(levels):
        fit = [1.0] + [sum(fit[i] * fit[k - 1 - i] for i in range(k)) / k for k in range(1, n + 1)]
    return [a - b for a, b in zip(fit, fit[1:])]


# the test's own (sampled) frequencies, which are close to those
TREE = [0, 0, 0, 0, .13333333, .2, .20634921, .17857143, .13007085, .08183633, .04338395, .01851828, .00617270, .00151193, .00023520, .00001680]
assert all(abs(a - b) < 3e-6 for a, b in zip(TREE, binary(4)))


def cells(h, prob, T):
    """the cells from the first to the one before the last expected to hold more than 4"""
    e = [x * T for x in prob]
    ok = [i for i, x in enumerate(e) if x > 4]
    a, b = ok[0], ok[-1]
    return Q(b - a - 1, sum((h[i] - e[i]) ** 2 / e[i] for i in range(a, b)))


def treevals(R, w, n):
    kind = R.choice([0, 0, 1, 2])
    m = (1 << w) - 1
    out, x, clear = [], R.getrandbits(w), 0
    for i in range(n):
        y = R.getrandbits(w)
        if kind == 1 and R.random() < .02:
            y = R.choice([0, 0, m, 1, 1 << (w - 1)])
        if kind == 2 and R.random() < .05:
            y = x
        out.append(y)
        if kind == 1 and R.random() < .002:
            many = R.randint(5, 40)             # values that fill no node: a tree may use many, but not more than it has counts
            if len(out) > clear:
                out += [0] * many
                clear = len(out) + 60
        x = y
    return out


def filltree(R, w, T):
    s = treevals(R, w, T * 12)

    def rec(o):
        h, h2, tree, i, j, used, rot = [0] * 65, [0] * 16, [0] * 32, 0, 0, 0, 0
        for x in s:
            used += 1
            v = turn(x, rot, w)
            p, d = 15, 8
            while d:
                if tree[p] == 0:
                    tree[p] = v
                    break
                p = p + d if tree[p] < v else p - d
                d //= 2
            i += 1
            if d:
                continue
            h[i - 1] += 1
            h2[p // 2] += 1
            tree, i = [0] * 32, 0
            if j % quarter(T) == 0:
                rot += 1
            j += 1
            if j == T:
                break
        assert j == T
        return probs({"f": "tree", "s": [halves(x, w) for x in s[:used]], "T": T, "w": w, "h": h, "h2": h2, "tol": 500}, o["p"][0],
                     [cells(h, TREE, T), Q(15, sum((x - T // 16) ** 2 / (T // 16) for x in h2))])
    return s, w, 207, T, 0, rec, 1


def target(size):
    """the exact chance that the tree of size nodes turns the (k+1)-th marker away after k were placed"""
    levels = size.bit_length() - 2
    # f(l)[k]: number of markers a subtree with l levels (root included) takes before one falls through, by repeated halving:
    # a subtree is met by a sequence of markers; P_l(k) = chance that exactly k markers are placed before the first falls through
    prev = {0: 1.0}                     # no level: the first marker falls through

    def join(p):
        """both halves get markers by fair coins; ends when one half turns one away"""
        n = max(p)
        tail = [sum(v for k, v in p.items() if k >= i) for i in range(n + 2)]
        out = {}
        for a, pa in p.items():         # the half that turns away takes a, the other has taken b so far without turning away
            for b in range(n + 1):
                if tail[b] > 0:
                    c = factorial(a + b) // (factorial(a) * factorial(b))
                    out[a + b] = out.get(a + b, 0) + 2 * pa * tail[b] * c / 2. ** (a + b + 1)
        return out
    for _ in range(levels):
        prev = join({k + 1: v for k, v in prev.items()})     # a node takes the first marker, then its halves
    return prev


def filltree2(R, w, T):
    s = [R.getrandbits(w) for _ in range(T * 270 // w + 40)]
    if R.random() < .3:
        s = [x | (1 << R.randrange(w)) if R.random() < .1 else x for x in s]
    prob = target2()

    def rec(o):
        h, h2 = [0] * 129, [0] * 64
        marked, p, d, n, j, used = set(), 63, 32, 0, 0, 0
        for x in s:
            used += 1
            for b in range(w):
                if j == T:
                    break
                p = p + d if x >> b & 1 else p - d
                d //= 2
                if p not in marked:
                    marked.add(p)
                    n += 1
                    p, d = 63, 32
                elif d == 0:
                    h[n] += 1
                    h2[p // 2] += 1
                    marked, p, d, n = set(), 63, 32, 0
                    j += 1
            if j == T:
                break
        assert j == T
        e = T / 64.
        g = 2 * sum(x * log(x / e) for x in h2 if x) / (1 + 65 / (6. * T) + 4096 / (6. * T * T))
        return probs({"f": "tree2", "s": [halves(x, w) for x in s[:used]], "T": T, "w": w, "h": h, "h2": h2, "tol": 500}, o["p"][0],
                     [cells(h, prob, T), Q(63, abs(g))])
    return s, w, 208, T, 0, rec, 1


T2 = []


def target2():
    if not T2:
        p = target(128)
        T2.append([p.get(i, 0) for i in range(128)])
    return T2[0]


# ------------------------------------------------------------------ birthdays of a chosen number
def bdays(R, w, n, T, nt):
    s = [R.getrandbits(w) for _ in range(n * T)]
    if R.random() < .5:
        for _ in range(T // 3):         # repeated spacings next to each other in the list of spacings
            t = R.randrange(T) * n
            for i in range(0, min(n, 6), 2):
                if R.random() < .5:
                    s[t + i] = s[t + R.randrange(n)]
    lam = float(n) ** 3 / 2. ** (w + 2)
    pdf = [exp(-lam)]
    while len(pdf) < 200:
        pdf.append(pdf[-1] * lam / len(pdf))
    kmax = 1
    while T * pdf[kmax] > 5:
        kmax += 1
    kmax += 1

    def rec(o):
        h = [0] * kmax
        for t in range(T):
            v = sorted(s[t * n:t * n + n])
            d = sorted([v[0]] + [b - a for a, b in zip(v, v[1:])])
            k = sum(d[i] == d[i + 1] and (i == 0 or d[i - 1] != d[i]) for i in range(n - 1))
            if k < kmax:
                h[k] += 1
        chi = sum((h[i] - T * pdf[i]) ** 2 / (T * pdf[i]) for i in range(kmax))
        return probs({"f": "bday", "s": s, "T": T, "n": n, "h": h, "tol": 500}, o["p"][0], [Q(kmax - 1, chi)])
    return s, w, 210, T, nt, rec, 1


def run(c):
    R = c.rnd
    inv = "SPECIFICATION Spec\nINVARIANTS %s\nCONSTANTS N = %d\nV = {%s}\nBad = %s\n"
    rng = lambda a, b: ", ".join(map(str, range(a, b)))
    c.model("MShapes", inv % ("CertificateDecides Least NoTwoCrash CellsDecide", 6, rng(0, c.n(4, 5)), "FALSE"), min_states=1000, workers=6)
    c.model("MShapes", inv % ("TreeDone TreeUses TreeSorted BitDone Marked SumsAre RepeatsAre", c.n(6, 7), "0, 1, 2, 5, 8", "FALSE"), min_states=1000, workers=6)
    c.model("MShapes", inv % ("OrderTells TurnComposes TurnPairs Waves", 5, rng(1, 8), "FALSE"), min_states=1000, workers=6)
    c.model_fails("MShapes", inv % ("TreeSorted", 4, "0, 1, 2", "TRUE"))
    c.model_fails("MShapes", inv % ("CellsDecide", 4, "0, 1, 2, 3", "TRUE"))
    jobs = []
    k = c.n(2, 8)
    for _ in range(6 * k):
        jobs.append(operm(R, R.choice([31, 31, 24, 16, 12]), R.choice([120, 1200, 3000, 6000]), R.choice([1, 1, 1, 0])))
    for _ in range(8 * k):
        jobs.append(geometry(R, 11, 2, R.choice([2, 3, 10, 100, 1000, 3000])))
        d = R.choice([2, 3, 4, 5])
        jobs.append(geometry(R, 201, d, R.choice([2, 3, 10, 200, 1000, 2000] if d < 5 else [2, 10, 100, 500, 1000])))
    for _ in range(2 * k):
        jobs.append(geometry(R, 11, 2, 8000))
        jobs.append(geometry(R, 201, R.choice([2, 3]), 10000))
        jobs.append(parking(R, R.choice([24, 20, 16, 22])))
    for _ in range(3 * k):
        jobs.append(geometry(R, 12, 3, 4000))
    for _ in range(8 * k):
        jobs.append(sums(R, R.choice([32, 31, 24, 16]), R.choice([2, 3, 10, 50, 100, 100, 300, 1000])))
        n = R.choice([8, 8, 16, 32])
        jobs.append(dct(R, R.choice([8, 12, 16, 20, 24, 28, 32]), n, R.choice([6, 8, 12, 20]) * n + R.choice([0, 1, 3]), n))
        m = R.choice([2, 4, 8, 16])     # the two methods meet at five samples per position
        jobs.append(R.choice([lambda: dctall(R, 16, m, 5 * m), lambda: dct(R, 16, 8, 41, 8)])())
        jobs.append(dctall(R, R.choice([12, 16, 20, 24, 28]), R.choice([2, 4, 8, 16]), R.choice([1, 2, 3, 4, 10])))
    for _ in range(2 * k):
        jobs.append(dct(R, R.choice([32, 32, 24, 16]), 256, R.choice([1290, 1600, 2048]), R.choice([0, 256])))
    for _ in range(6 * k):
        jobs.append(filltree(R, R.choice([32, 32, 30, 24, 16]), 16 * R.choice([7, 20, 60, 125, 250])))
        jobs.append(filltree2(R, R.choice([32, 32, 30, 24, 16, 5]), 16 * R.choice([20, 30, 60, 100])))
        w = R.choice([12, 15, 18, 20])
        n = int((R.choice([.5, 1, 2, 4]) * 2 ** (w + 2)) ** (1 / 3.))
        jobs.append(bdays(R, w, n, R.choice([50, 200, 500]), n))
    for _ in range(c.n(1, 3)):
        jobs.append(bdays(R, R.choice([30, 29, 28]), 1700, 30, 0))
    R.shuffle(jobs)

    def one(j):
        ws, w, test, T, nt, rec, overlap = j
        sc = streams.script(ws, w, test, T, nt)
        sc[-1] = "test %d %d 1 %d %d" % (test, T, nt, overlap)
        if T <= 4000 and test != 10 and test != 12 and hash((T, len(ws))) % 3 == 0:      # after another evaluation
            sc = sc[:-1] + ["test %d %d 1 %d %d" % (test, T, nt, overlap)] + sc
        return rec(lib(sc, what=sc[-1])[-1])
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(one, jobs))
    c.cases("TShapes", recs, "test on a given stream", parts=7, heap="2g")
    try:
        lib(streams.script([R.getrandbits(32) for _ in range(300)], 32, 207, 10), what="dab_filltree, 10 samples")
    except Violation:
        c.finding("few-trees", True)
    c.cov["streams"] = {f: sum(r["f"] == f for r in recs) for f in sorted({r["f"] for r in recs})}
    mid = [r for r in recs if r["f"] == "sums" and r["T"] <= 100][0]
    c.sample(mid)
    for b in (dict(mid, y=[mid["y"][0] + 1] + mid["y"][1:]), dict(mid, p=[(mid["p"][0] + 4096) % E9])):
        c.cases_rejected("TShapes", [b])
