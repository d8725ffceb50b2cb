"""Streams for the test functions, and the reference pieces they share."""
from math import erfc, sqrt

from scipy.special import gammaincc

from .p_c04 import dparts

E9 = 10 ** 9


def phi(z):
    return .5 * erfc(-z / sqrt(2))


def Q(ndof, chi):
    return float(gammaincc(ndof / 2.0, max(chi, 0) / 2.0))


def vtest(cells, cut, ndof=0):
    """(chi-square, degrees of freedom) with pooling of cells expected below cut."""
    st = [(x, y) for x, y in cells if y >= cut]
    wk = [(x, y) for x, y in cells if y < cut]
    if wk:
        t = (sum(x for x, y in wk), sum(y for x, y in wk))
        if t[1] >= cut:
            st.append(t)
    return sum((x - y) ** 2 / y for x, y in st), ndof or len(st) - 1


def word(R, kind, w, st):
    m = (1 << w) - 1
    if kind == 0:
        return R.getrandbits(w)
    if kind == 1:                       # a few bits more ones than zeros
        return R.getrandbits(w) | (1 << R.randrange(w))
    if kind == 2:                       # sticky: differs from the previous word in some bits
        st[0] ^= R.getrandbits(w) & R.getrandbits(w)
        return st[0] & m
    if kind == 3:                       # counter
        st[0] += 1
        return (st[0] * 2654435761) & m
    if kind == 4:                       # nibbles of two kinds
        v = 0
        for _ in range((w + 3) // 4):
            v = v << 4 | R.choice([3, 5, 10, 12, 6, 9])
        return v & m
    if kind == 5:                       # alternating
        st[0] += 1
        return (0xaaaaaaaa if st[0] % 2 else 0x5555aaaa) & m
    if kind == 6:                       # rare ones
        v = 0
        for _ in range(3):
            if R.random() < .6:
                v |= 1 << R.randrange(w)
        return v
    return m if kind == 7 else 0


def words(R, n, w=32, kind=None):
    k = R.choice([0, 0, 0, 1, 2, 3, 4]) if kind is None else kind
    st = [R.getrandbits(w)]
    return [word(R, k, w, st) for _ in range(n)]


def take(ws, n):
    """the first n outputs of the scripted generator, which repeats its values"""
    return (ws * (n // len(ws) + 1))[:n]


def outputs(ws, w, n):
    """enough outputs of a w-bit generator for n 32-bit words"""
    return take(ws, (32 * n + w - 1) // w)


def script(ws, w, test, T, nt=0, ps=1):
    return ["gen 0 %d 0 1" % ((1 << w) - 1), "vals %d %s" % (len(ws), " ".join(map(str, ws))), "reset", "test %d %d %d %d 1" % (test, T, ps, nt)]


def b4(ws):
    return [[x >> 24, x >> 16 & 255, x >> 8 & 255, x & 255] for x in ws]


def delivered(draws, w, n):
    """the n 32-bit words a w-bit generator's outputs fill, most significant bits first"""
    if w == 32:
        return draws[:n]
    v = b = 0
    out = []
    for x in draws:
        v = v << w | x
        b += w
        if b >= 32:
            b -= 32
            out.append(v >> b)
            v &= (1 << b) - 1
    return out[:n]


def tally(v):
    h = {}
    for x in v:
        h[x] = h.get(x, 0) + 1
    return [[x, h[x]] for x in sorted(h)]


def probs(r, p, q):
    r["bits"] = [dparts(x if x is not None else float("nan")) for x in p]
    r["p"] = [int(round(x * E9)) if x is not None and abs(x) <= 2 else -E9 for x in p]
    r["q"] = [int(round(x * E9)) for x in q]
    return r
