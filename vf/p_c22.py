"""C22: the bit-counting tests count what they say on the stream they are given."""
from concurrent.futures import ThreadPoolExecutor
from math import sqrt

from scipy.stats import binom

from . import streams
from .check import lib
from .streams import Q, b4, phi, probs, tally, vtest

ASSUMPTIONS = ["sample sizes far below the standard ones, so that the specification can recount every stream",
               "reference p-values are computed from the recounted tallies with scipy's distributions (5e-7)",
               "the first block of dab_monobit2's longer block sizes is shorter, as implemented",
               "generators of 8 to 32 bits"]


def extreme(ps):
    e = min((min(p, 1 - p), i) for i, p in enumerate(ps))
    # the first of equals decides
    best, sign = 1.0, 1
    for p in ps:
        m, s = (1 - p, 1) if p > .5 else (p, -1)
        if m < best:
            best, sign = m, s
    x = (1 - best) ** len(ps)
    return 1 - x if sign == 1 else x


def monobit(d, w, T, o, nt):
    d = streams.take(d, T)
    ones = sum(bin(x).count("1") for x in d)
    n = T * w
    r = {"f": "monobit", "s": b4(d), "w": w, "T": T, "ones": ones, "n": n}
    return probs(r, o["p"], [phi(-(2 * ones - n) / sqrt(n))])


def runs(d, w, T, o, nt):
    d = streams.take(d, T)
    bits = [x >> i & 1 for x in d for i in range(w - 1, -1, -1)]
    n, ones = len(bits), sum(bits)
    ch = sum(bits[i] != bits[(i + 1) % n] for i in range(n))
    pi = ones / float(n)
    r = {"f": "runs", "s": b4(d), "w": w, "T": T, "ones": ones, "n": n, "changes": ch}
    sg = 2 * sqrt(n) * pi * (1 - pi)
    return probs(r, o["p"], [phi((2 * n * pi * (1 - pi) - ch) / sg) if sg > 0 else 0.0])


def serial(d, w, T, o, nt):
    d = streams.delivered(streams.outputs(d, w, T), w, T)
    bits = [x >> i & 1 for x in d for i in range(31, -1, -1)]
    n = len(bits)
    t, sq = [0] * n, []
    for m in range(1, 17):
        t = [2 * t[k] + bits[(k + m - 1) % n] for k in range(n)]
        sq.append(sum(c * c for _, c in tally(t)))
    psi = [0.0] + [2.0 ** (m + 1) * s / n - n for m, s in enumerate(sq)]
    q = [phi((n - 2 * sum(bits)) / sqrt(n))]
    for m in range(2, 17):
        q.append(Q(2 ** (m - 1), psi[m] - psi[m - 1]))
        if m > 2:
            q.append(Q(2 ** (m - 2), psi[m] - 2 * psi[m - 1] + psi[m - 2]))
    return probs({"f": "serial", "s": b4(d), "T": T, "n": n, "sq": sq}, o["p"], q)


def bitdist(d, w, T, o, nt):
    d = streams.take(d, 2 * nt * T + 1)
    pick = d[2 * nt * T]
    d = d[:2 * nt * T]
    bits = "".join(format(x, "032b") for x in d)
    v = pick // (2 ** (32 - nt) - 1)
    occ = [0] * T
    for k in range(64 * T):
        occ[k // 64] += int(bits[k * nt:(k + 1) * nt], 2) == v
    h = tally(occ)
    hd = dict(map(tuple, h))
    cells = [(hd.get(b, 0), T * float(binom.pmf(b, 64, .5 ** nt))) for b in range(65)]
    chi, nd = vtest(cells, 20)
    return probs({"f": "bitdist", "s": b4(d), "T": T, "nb": nt, "pick": pick, "v": v, "h": h}, o["p"], [Q(nd, chi)])


def bytesd(d, w, T, o, nt):
    d = streams.take(d, 3 * T)
    v = [((k % 3) * 3 + j) * 256 + (x >> (j * (w - 8) // 2) & 255) for k, x in enumerate(d) for j in range(3)]
    sq = sum(c * c for _, c in tally(v))
    e = T / 256.0
    q = 1.0 if e < 5 else Q(255 * 9, sq / e - 9 * T)
    return probs({"f": "bytes", "s": b4(d), "w": w, "T": T, "sq": sq}, o["p"], [q])


def blocks(d, w, T, o, nt):
    d = streams.take(d, T)
    ones = [bin(x).count("1") for x in d]
    if not nt:
        for nt in range(16):
            if T // (2 << nt) * float(binom.pmf(w * (2 << nt) // 2, w * (2 << nt), .5)) < 20:
                break
    hs, ps = [], []
    for j in range(nt):
        s, v = 0, []
        for i, x in enumerate(ones):
            s += x
            if i >> j & 1 and not (i - 1) >> j & 1:
                v.append(s)
                s = 0
        hs.append(tally(v))
        us = [(x, c) for x, c in hs[-1] if c > 10]
        ns, nm = T // (2 << j), w * (2 << j)
        chi = sum((c - ns * float(binom.pmf(x, nm, .5))) ** 2 / (ns * float(binom.pmf(x, nm, .5))) for x, c in us)
        ps.append(Q(len(us) - 1, chi) if len(us) > 1 else None)
    if None in ps:
        return None
    return probs({"f": "blocks", "s": b4(d), "T": T, "nt": nt, "h": hs}, o["p"], [extreme(ps)])


LET = [0, 0, 0, 1, 2, 3, 4, 4, 4]
PL = [37, 56, 70, 56, 37]


def count5(d, w, T, o, over):
    if over:
        d = streams.delivered(streams.outputs(d, w, (T + 3) // 4 + 1), w, (T + 3) // 4 + 1)
        ls = [LET[bin(x >> s & 255).count("1")] for x in d for s in (0, 8, 16, 24)]
        v = []
        for k in range(T):
            x = 0
            for y in ls[k:k + 5]:
                x = 5 * x + y
            v.append(x)
    else:
        d = streams.delivered(streams.outputs(d, w, 5 * T), w, 5 * T)
        v = []
        for t in range(T):
            x, off = 0, t % 32
            for y in d[5 * t:5 * t + 5]:
                x = 5 * x + LET[bin((y >> off | y << (32 - off)) & 255).count("1")]
            v.append(x)

    def chi(n, vals):
        h = dict(map(tuple, tally(vals)))
        cells = []
        for i in range(5 ** n):
            y, j = float(T), i
            for _ in range(n):
                y *= PL[j % 5] / 256.0
                j //= 5
            cells.append((h.get(i, 0), y))
        return vtest(cells, 5)[0]
    q = phi((2500 - (chi(5, v) - chi(4, [x % 625 for x in v]))) / sqrt(5000))
    return probs({"f": "count5", "s": b4(d), "T": T, "overlapping": bool(over), "h": tally(v)}, o["p"], [q])


def run(c):
    R = c.rnd
    m = "SPECIFICATION Spec\nINVARIANTS Marginal RotationFree Square Steps ChangesAre Growing BlocksAll\nCONSTANTS N = %d\nM = %d\nCyclic = %s\n"
    c.model("MCounting", m % (c.n(7, 11), 3, "TRUE"), min_states=50)
    c.model_fails("MCounting", m % (4, 3, "FALSE"))
    jobs = []

    def add(f, ws, w, test, T, nt=0, arg=None):
        jobs.append((f, ws, w, test, T, nt, nt if arg is None else arg))
    k = c.n(1, 6)
    for i in range(60 * k):
        w = R.choice([32, 32, 32, 31, 24, 16, 9, 8, 1, 5])
        T = R.choice([1, 2, 3, 7, 40, 100, R.randint(1, 300)])
        kind = R.choice([None, None, 0, 5, 6, 7, 8])
        add(monobit, streams.words(R, T, w, kind), w, 100, T)
        T = R.choice([1, 2, 3, 7, R.randint(1, 60)])
        if T * w > 1:
            add(runs, streams.words(R, T, w, kind), w, 101, T)
    for i in range(24 * k):
        w = R.choice([32, 32, 32, 31, 17, 8])
        T = R.choice([1, 2, 3, 5, 8, 13, R.randint(1, 40)])
        add(serial, streams.words(R, T * 32 // w + 2, w, R.choice([None, None, 0, 0, 5, 6, 7, 8])), w, 102, T)
    for i in range(10 * k):
        nb = R.choice([1, 2, 3, 4, 5, 6, 8])
        T = R.choice([100, 200, 150]) if nb < 5 else 60
        ws = streams.words(R, 2 * nb * T, 32, R.choice([None, 0, 0])) + [R.randint(0, (2 ** 31 - 1) if nb > 0 else 0)]
        add(bitdist, ws, 32, 200, T, nb)
    for i in range(6 * k):
        w = R.choice([32, 32, 31, 24, 16, 8, 9])
        T = R.choice([1280, 1281, 1400, 100])
        add(bytesd, streams.words(R, 3 * T, w, R.choice([None, 0, 0])), w, 205, T)
    for i in range(12 * k):
        w = R.choice([32, 32, 32, 31, 16, 8])
        T = R.choice([1500, 2000, 2048, 1025])
        add(blocks, streams.words(R, T, w, R.choice([None, 0, 0, 0])), w, 209, T, R.choice([0, 1, 2, 3]))
    for i in range(4 * k):
        w = R.choice([32, 32, 16, 31])
        T = R.choice([8000, 6000, 10001, 7999])
        add(count5, streams.words(R, (T // 4 + 4) * 32 // w, w, R.choice([0, 0, 1, 4])), w, 8, T, arg=1)
        T = R.choice([3000, 4000, 2500])
        add(count5, streams.words(R, 5 * T * 32 // w + 4, w, R.choice([0, 0, 1, 4])), w, 9, T, arg=0)
    # near the standard sizes: no cell is pooled and no p-value is cut off at 0 or 1
    for i in range(c.n(1, 3)):
        w, T = R.choice([32, 32, 31, 24]), R.randint(85000, 95000)
        add(count5, streams.words(R, (T // 4 + 4) * 32 // w, w, 0), w, 8, T, arg=1)
        w, T = R.choice([32, 32, 31]), R.randint(85000, 90000)
        add(count5, streams.words(R, 5 * T * 32 // w + 4, w, 0), w, 9, T, arg=0)
        w, T = R.choice([32, 31, 24]), R.randint(190000, 220000)
        add(blocks, streams.words(R, T, w, 0), w, 209, T, 8)
        w, T = R.choice([32, 31, 24]), R.randint(190000, 220000)
        add(blocks, streams.words(R, T, w, 0), w, 209, T, 0)
        for nb in (1, 2, 3):
            T = 1500
            add(bitdist, streams.words(R, 2 * nb * T, 32, 0) + [R.getrandbits(31)], 32, 200, T, nb)
    jobs.sort(key=lambda j: -len(j[1]))

    def one(j):
        f, ws, w, test, T, nt, arg = j
        sc = streams.script(ws, w, test, T, nt)
        o = lib(sc, what=sc[-1])[-1]
        o["p"] = o["p"][0]
        return f(ws, w, T, o, arg)
    with ThreadPoolExecutor(8) as ex:
        recs = [r for r in ex.map(one, jobs) if r]
    c.cases("TCounting", recs, "test on a given stream", parts=7, heap="2g")
    c.cov["streams"] = {f: sum(r["f"] == f for r in recs) for f in sorted({r["f"] for r in recs})}
    mid = [r for r in recs if r["f"] == "runs" and len(r["s"]) < 50][0]
    c.sample(mid)
    for b in (dict(mid, changes=mid["changes"] + 1), dict(mid, p=[mid["p"][0] ^ 4096])):
        c.cases_rejected("TCounting", [b])
