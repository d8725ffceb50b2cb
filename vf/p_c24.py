"""C24: ordering, spacing and game tests evaluate their statistic on the stream they are given."""
from concurrent.futures import ThreadPoolExecutor
from math import factorial, pi, sqrt

from scipy.special import gammaincc
from scipy.stats import poisson

from . import streams
from .check import lib
from .p_c20 import exact
from .streams import E9, Q, phi, probs, tally, vtest

ASSUMPTIONS = ["sample sizes far below the standard ones, so that the specification can recount every stream",
               "expected frequencies are those the tests name; reference p-values come from scipy (5e-7)",
               "the values of one permutation differ", "the runs test closes with a comparison of the last value with the first, as implemented",
               "squeeze on values with 8 to 15 significant bits (the code's floating-point product is exact for them)",
               "birthdays: 22 to 24 bits (a generator of 24 bits or fewer, or 32)"]
S31 = 1 << 31


def off(x, w):
    return x - S31 if w == 32 else x


def sig(x):
    return x - (1 << 32) if x >> 31 else x


# -- birthdays -----------------------------------------------------------------
def spacings(v):
    s = sorted(v)
    return sorted([s[0]] + [b - a for a, b in zip(s, s[1:])])


def repeated(d):
    return sum(c > 1 for _, c in tally(d))


def skipping(d):
    i = k = 0
    while i < len(d) - 1:
        if d[i] != d[i + 1]:
            i += 1
            continue
        j = i
        while j < len(d) and d[j] == d[i]:
            j += 1
        k += 1
        i = j + 1
    return k


def year(R, nb, agree):
    """512 birthdays of nb bits; `agree': no repeated spacing follows another in size"""
    while True:
        k = R.random()
        if k < .85:
            v = [R.getrandbits(nb) for _ in range(512)]
        elif k < .92:                     # chosen spacings: pairs and triples between single ones
            step = (1 << nb) // 512 // 300
            d, x = [], 1
            for _ in range(R.randint(1, 40)):
                d += [x * step] * R.choice([2, 2, 3]) + [x * step + step // 2]
                x += 1
            while len(d) < 512:
                d.append(x * step + R.randrange(1, step))
                x += 1
            d = d[:512]
            R.shuffle(d)
            v, x = [], 0
            for y in d:
                x += y
                v.append(x)
            R.shuffle(v)
            if x >> nb:
                continue
        elif k < .95:                     # several on the same day
            v = [R.getrandbits(nb) for _ in range(500)]
            v += [R.choice(v) for _ in range(12)]
        elif k < .97:
            v = [R.getrandbits(nb)] * 512
        else:
            a = R.randrange(1, 1 << (nb - 10))
            v = [a * (i + 1) for i in range(512)]
        d = spacings(v)
        if (repeated(d) == skipping(d)) == agree:
            return v


def birthdays(R, w, T, agree=True):
    nb = min(24, w)
    vs = [year(R, nb, agree or R.random() < .5) for _ in range(T)]
    nums = [x for v in vs for x in v]
    if w == 32:
        b = b"".join(x.to_bytes(3, "little") for x in nums)
        b += b"\0" * (-len(b) % 4)
        ws = [int.from_bytes(b[i:i + 4], "little") for i in range(0, len(b), 4)]
    else:
        ws = nums
    ds = [spacings(v) for v in vs]
    lam = 512.0 ** 3 / 2 ** (nb + 2)
    kmax = 1
    while T * poisson.pmf(kmax, lam) > 5:
        kmax += 1
    kmax += 1

    def p(ks):
        return Q(kmax - 1, sum((sum(k == i for k in ks) - e) ** 2 / e for i in range(kmax) for e in [T * float(poisson.pmf(i, lam))]))

    def rec(o):
        true, code = [repeated(d) for d in ds], [skipping(d) for d in ds]
        x = o["p"][0][0]
        known = abs(x - p(true)) > 5e-7 and abs(x - p(code)) <= 5e-7
        ks = code if known else true
        return probs({"f": "birthdays", "w": w, "s": [sig(x) if w == 32 else x for x in ws], "T": T, "known": known, "h": tally(ks)}, o["p"][0], [p(ks)])
    return ws + [0] * 8, w, 0, T, 0, rec


# -- runs ----------------------------------------------------------------------
A = [[4529.4, 9044.9, 13568, 18091, 22615, 27892], [9044.9, 18097, 27139, 36187, 45234, 55789],
     [13568, 27139, 40721, 54281, 67852, 83685], [18091, 36187, 54281, 72414, 90470, 111580],
     [22615, 45234, 67852, 90470, 113262, 139476], [27892, 55789, 83685, 111580, 139476, 172860]]
B = [1 / 6., 5 / 24., 11 / 120., 19 / 720., 29 / 5040., 1 / 840.]


def runs(R, w, T):
    ws = streams.words(R, T, w, R.choice([None, 0, 0, 0]))
    if R.random() < .4:                   # some long runs, some ties
        i = 0
        while i < T - 12:
            n = R.randint(3, 12)
            if R.random() < .1:
                ws[i:i + n] = sorted(ws[i:i + n], reverse=R.random() < .5)
            elif R.random() < .1:
                ws[i + 1] = ws[i]
            i += n
    if R.random() < .3:
        ws[-1] = ws[0]

    def rec(o):
        up, dn, u, d = [0] * 6, [0] * 6, 1, 1
        for i in range(T):
            if (ws[i + 1] > ws[i]) if i < T - 1 else (ws[i] > ws[0]):
                dn[d - 1] += 1
                u, d = min(u + 1, 6), 1
            else:
                up[u - 1] += 1
                u, d = 1, min(d + 1, 6)
        q = []
        for h in (up, dn):
            z = [h[i] - T * B[i] for i in range(6)]
            q.append(float(gammaincc(3, max(0, sum(z[i] * z[j] * A[i][j] for i in range(6) for j in range(6)) / T / 2))))
        return probs({"f": "runs", "s": [off(x, w) for x in ws], "T": T, "up": up, "down": dn}, o["p"][0], q)
    return ws, w, 15, T, 0, rec


def perms(R, w, T, k):
    ws = []
    bias = R.random() < .3
    for _ in range(T):
        v = R.sample(range(1 << w), k)
        if bias and R.random() < .1:
            v.sort()
        ws += v

    def rec(o):
        v = [int("".join(str(sum(y < x for y in g)) for x in g)) for g in (ws[k * t:k * t + k] for t in range(T))]
        h = tally(v)
        n = factorial(k)
        cells = [(c, T / float(n)) for _, c in h] + [(0, T / float(n))] * (n - len(h))
        chi, nd = vtest(cells, 5)
        return probs({"f": "perms", "s": [off(x, w) for x in ws], "T": T, "k": k, "h": h}, o["p"][0], [Q(nd, chi)])
    return ws, w, 202, T, k, rec


def sums(R, w, T, lag):
    ws = [R.getrandbits(w) for _ in range(T * (lag + 1))]
    if R.random() < .3:
        ws = [x if R.random() < .9 else (1 << w) - 1 for x in ws]

    def rec(o):
        x = [ws[(lag + 1) * t + lag] for t in range(T)]
        hi, lo = sum(v >> 16 for v in x), sum(v & 65535 for v in x)
        s = (hi * 65536 + lo) / 2.0 ** w
        return probs({"f": "sums", "his": [v >> 16 for v in ws], "los": [v & 65535 for v in ws], "lag": lag, "T": T, "hi": hi, "lo": lo},
                     o["p"][0], [phi((T * .5 - s) / sqrt(T / 12.0))])
    return ws, w, 203, T, lag, rec


def craps(R, w, T):
    top = (1 << w) - 1
    sc = top // 6
    ws, k = [], R.choice([0, 0, 1, 2])

    def die(v):                           # a value for the die, often at the edge of its range
        z = R.random()
        lo, hi = v * sc, (v + 1) * sc - 1
        return lo if z < .1 else hi if z < .2 else R.randint(lo, hi)
    games, point, tries, wins, h = 0, 0, 0, 0, [0] * 21
    odd = 0
    held = 0
    while games < T:
        if R.random() < .03 and sc * 6 <= top:
            ws.append(R.randint(sc * 6, top))             # to be thrown again
            continue
        d = R.randrange(6)
        if held and point and tries >= 1 and k == 2 and not odd and R.random() < .97:
            d = 0
        x = die(d)
        ws.append(x)
        if not odd:
            first, odd = d + 1, 1
            continue
        s, odd = first + d + 1, 0
        win = None
        if not point:
            if s in (7, 11):
                win = True
            elif s in (2, 3, 12):
                win = False
            else:
                point, tries = s, 1
                held = R.random() < .1
        elif s == 7:
            win = False
        elif s == point:
            win = True
        else:
            tries = min(tries + 1, 20)
        if win is not None:
            games += 1
            wins += win
            h[min(tries, 20)] += 1
            point = tries = 0

    def rec(o):
        pw = 244 / 495.0
        y = [1 / 3.0] + [(27 * .75 ** (i - 1) + 40 * (13 / 18.0) ** (i - 1) + 55 * (25 / 36.0) ** (i - 1)) / 648 for i in range(1, 20)]
        y.append(1 - sum(y))
        chi, nd = vtest([(a, T * b) for a, b in zip(h, y)], 5)
        return probs({"f": "craps", "s": [off(x, w) for x in ws], "w": w, "T": T, "wins": wins, "h": h}, o["p"][0],
                     [phi((T * pw - wins) / sqrt(T * pw * (1 - pw))), Q(nd, chi)])
    return ws, w, 16, T, 0, rec


SDATA = [0.00002103, 0.00005779, 0.00017554, 0.00046732, 0.00110783, 0.00236784, 0.00460944, 0.00824116, 0.01362781, 0.02096849,
         0.03017612, 0.04080197, 0.05204203, 0.06283828, 0.07205637, 0.07869451, 0.08206755, 0.08191935, 0.07844008, 0.07219412,
         0.06398679, 0.05470931, 0.04519852, 0.03613661, 0.02800028, 0.02105567, 0.01538652, 0.01094020, 0.00757796, 0.00511956,
         0.00337726, 0.00217787, 0.00137439, 0.00084970, 0.00051518, 0.00030666, 0.00017939, 0.00010324, 0.00005851, 0.00003269,
         0.00001803, 0.00000982, 0.00001121]


def squeeze(R, w, T):
    g = R.randint(8, 15)
    if w < 32:
        w = g
    ms, js = [], []
    for _ in range(T):
        k, j = 2 ** 31 - 1, 0
        fast = R.random() < .01
        slow = R.random() < .01
        while k != 1 and j < 48:
            m = R.randint(0 if R.random() < .0002 else 1, 2 ** g - 1)
            if fast:
                m = R.randint(1, 8)
            if slow:
                m = R.randint(2 ** (g - 1), 2 ** g - 1)
            ms.append(m)
            k = -(-k * m >> g) if m else 0
            j += 1
        js.append(max(6, j))

    def rec(o):
        h = tally(js)
        hd = dict(map(tuple, h))
        chi, nd = vtest([(hd.get(i + 6, 0), T * SDATA[i]) for i in range(43)], 5)
        return probs({"f": "squeeze", "s": ms, "w": g, "T": T, "h": h}, o["p"][0], [Q(nd, chi)])
    return [m << (w - g) for m in ms], w, 13, T, 0, rec


KPROB = [0.0, 5.39e-09, 6.077e-08, 4.8421e-07, 2.94869e-06, 1.443266e-05, 5.908569e-05, 0.00020658047, 0.00062764766, 0.00167993762, 0.00399620143, 0.00851629626,
         0.01635214339, 0.02843154488, 0.04493723812, 0.06476525706, 0.08533638862, 0.1030000214, 0.11407058851, 0.11604146948, 0.10853040184, 0.09336837411, 0.07389607162, 0.05380182248,
         0.03601960159, 0.02215902902, 0.01251328472, 0.00647884418, 0.00306981507, 0.00132828179, 0.00052381841, 0.00018764452, 6.084138e-05, 1.779885e-05, 4.66795e-06, 1.09504e-06,
         2.2668e-07, 4.104e-08, 6.42e-09, 8.4e-10, 1.4e-10]


def euclid(T, ws):
    nz = [x for x in ws if x][:2 * T]
    out = []
    for t in range(T):
        u, v, k = nz[2 * t], nz[2 * t + 1], 0
        while v:
            u, v, k = v, u % v, k + 1
        out.append((u, k))
    return out


def gcds(R, T):
    w = 32
    out = []
    fib = [1, 1]
    while fib[-1] < 1 << 31:
        fib.append(fib[-1] + fib[-2])
    while len(out) < 2.1 * T + 40:
        z = R.random()
        if z < .01:
            out.append(0)
        elif z < .03:
            i = R.randrange(20, len(fib) - 1)
            out += [fib[i], fib[i + 1]]
        elif z < .05:
            g = R.choice([2, 3, 4, 5, 6, 7, 8, 30, 1000, 70000])
            m = (1 << w) // g
            out += [g * R.randrange(1, m), g * R.randrange(1, m)] if m > 2 else [1, 1]
        elif z < .06:
            x = R.getrandbits(w)
            out += [x, x]
        elif z < .07:
            out += [(1 << w) - 1, R.choice([1, 2, (1 << w) - 1, (1 << (w - 1)), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1])]
        else:
            out += [R.getrandbits(w), R.getrandbits(w)]
    out = [x & ((1 << w) - 1) for x in out]

    def rec(o):
        e = euclid(T, out)
        gn = 6 / pi ** 2
        size = int(sqrt(T * gn / 100))
        hk, hg = tally([min(40, k) for _, k in e]), tally([min(size - 1, u) for u, _ in e])
        dk, dg = dict(map(tuple, hk)), dict(map(tuple, hg))
        c1, n1 = vtest([(dk.get(i, 0), T * KPROB[i]) for i in range(41)], 5)
        y = [T * gn / (i * i) for i in range(2, size - 1)] + [sum(T * gn / (1.0 * j * j) for j in range(size - 1, 100000))]
        c2, n2 = vtest([(dg.get(i + 2, 0), z) for i, z in enumerate(y)], 5)
        return probs({"f": "gcd", "s": [sig(x) for x in out], "T": T, "size": size, "hk": hk, "hg": hg}, o["p"][0], [Q(n1, c1), Q(n2, c2)])
    return out, 32, 17, T, 0, rec


def ks(R, w, T):
    g = R.choice([10, 12])
    vs, k = [], R.choice([0, 1, 2, 3])
    for i in range(T + 20):
        x = R.randrange(1 << g)
        if k == 1 and R.random() < .1:
            x = 0
        if k == 2:
            x = min(x, R.randrange(1 << g)) if R.random() < .1 else x
        if k == 3:
            x = (((i * 7919) % T + 1) * (1 << g)) // (T + 1)
        vs.append(x)
    vs = [x if sum(map(bool, vs)) >= T else x or 1 for x in vs]

    def rec(o):
        s = sorted([x for x in vs if x][:T])
        dev = max(abs(s[i] * (T + 1) - (i + 1) * 2 ** g) for i in range(T))
        return probs({"f": "ks", "s": vs, "T": T, "G": 2 ** g, "dev": dev}, o["p"][0], [exact(T, dev / float(2 ** g * (T + 1)))])
    return [x << (w - g) for x in vs], w, 204, T, 0, rec


def run(c):
    R = c.rnd
    inv = "SPECIFICATION Spec\nINVARIANTS %s\nCONSTANTS N = %d\nV = {%s}\nDir = 0\n"
    c.model("MEvents", inv % ("RepeatsAre OrderFree Steps UpsEnd OrderDigits", 5, ", ".join(map(str, range(c.n(4, 6))))), min_states=1000)
    c.model("MEvents", inv % ("Games Thrown", c.n(6, 7), "0, 1, 2, 3, 5, 6"), min_states=1000)
    c.model("MEvents", inv % ("GcdIs GcdBig Shrinks", 2, ", ".join(map(str, range(1, c.n(60, 200))))), min_states=1000)
    c.model_fails("MEvents", inv % ("Same", 4, "0, 1, 2, 3, 5"))
    jobs = []
    k = c.n(2, 8)
    for _ in range(3 * k):
        jobs.append(birthdays(R, R.choice([32, 32, 24, 23, 22]), R.choice([100, 60, 37])))
    for _ in range(12 * k):
        jobs.append(runs(R, R.choice([32, 32, 31, 8, 4, 16]), R.choice([2, 10, 300, 1000, 2000])))
        n = R.choice([2, 3, 4, 5])
        jobs.append(perms(R, R.choice([32, 32, 31, 16]), R.choice([20, 12, 6, 5]) * factorial(n), n))
        jobs.append(sums(R, R.choice([32, 32, 31, 20]), R.choice([1, 2, 50, 500]), R.choice([0, 1, 2, 7, 31, 32, 33, 40, R.randint(0, 99)])))
        jobs.append(craps(R, R.choice([32, 32, 32, 31, 16, 8, 5]), R.choice([60, 200, 500, 1000])))
    for _ in range(6 * k):
        jobs.append(ks(R, 32, R.choice([10, 100, 300, 1000])))
    for _ in range(3 * k):
        jobs.append(squeeze(R, R.choice([32, 32, 15]), R.choice([500, 1000, 2000])))
        jobs.append(gcds(R, R.choice([5000, 3000, 8000])))
    for _ in range(c.n(1, 3)):            # near the standard sizes: few cells are pooled
        jobs.append(craps(R, R.choice([32, 31]), 24000))
        jobs.append(squeeze(R, 32, 20000))
        jobs.append(gcds(R, 40000))
        jobs.append(runs(R, 32, 20000))
        jobs.append(sums(R, 32, 3000, 32))
    jobs.append(birthdays(R, 32, 60, agree=False))
    R.shuffle(jobs)

    def one(j):
        ws, w, test, T, nt, rec = j
        sc = streams.script(ws, w, test, T, nt)
        return rec(lib(sc, what=sc[-1])[-1])
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(one, jobs))
    c.cases("TEvents", recs, "test on a given stream", parts=7, heap="2g")
    c.finding("birthday-neighbours", any(r.get("known") for r in recs))
    c.cov["streams"] = {f: sum(r["f"] == f for r in recs) for f in sorted({r["f"] for r in recs})}
    mid = [r for r in recs if r["f"] == "runs" and 5 < r["T"] <= 300][0]
    c.sample(mid)
    for b in (dict(mid, up=[mid["up"][0] + 1] + mid["up"][1:]), dict(mid, p=[(mid["p"][0] + 4096) % E9, mid["p"][1]])):
        c.cases_rejected("TEvents", [b])
