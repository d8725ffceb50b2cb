"""C23: missing-word and matrix tests evaluate their statistic on the stream they are given."""
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from . import streams
from .check import lib
from .streams import Q, phi, probs, vtest

ASSUMPTIONS = ["streams of the missing-word tests are long enough (from 0.9 million words) for the number of missing words to decide the p-value; "
               "they are built to leave about as many words out as a random stream does",
               "the 6x8 matrices are the least significant bytes",
               "32-bit generators for the missing-word tests (they take their letters from fixed bits of every output)",
               "bitstream starts with the ninth bit and dna with the twelfth output, as implemented",
               "expected numbers of missing words and rank probabilities are those the tests name"]
ALL = 1 << 20
MEAN = {"bitstream": (141909.0, 428.0), "opso": (141909.3299550069, 290.4622634038),
        "oqso": (141909.6005321316, 294.6558723658), "dna": (141910.4026047629, 337.2901506904)}
NUM = {"bitstream": 4, "opso": 5, "oqso": 6, "dna": 7}


def bitstream_stream(R, target):
    """bits whose 20-bit windows are new as often as possible, with repeats mixed in"""
    seen = bytearray(ALL)
    w, bits, n, T = R.getrandbits(20), [], 0, 0
    bits = [R.getrandbits(1) for _ in range(8)] + [w >> i & 1 for i in range(19, -1, -1)]
    seen[w] = 1
    n = T = 1
    flood = R.randint(10000, 200000)
    rb = [R.getrandbits(1) for _ in range(1 << 16)]
    while n < target:
        b = rb[T & 65535]
        if flood <= T < flood + 275:
            b = 0                       # one word again and again
        elif T % 19:
            if seen[(w << 1 | b) & (ALL - 1)]:
                b ^= 1
        w = (w << 1 | b) & (ALL - 1)
        bits.append(b)
        if not seen[w]:
            seen[w] = 1
            n += 1
        T += 1
    bits += [R.getrandbits(1) for _ in range(-len(bits) % 32)]
    a = np.packbits(np.array(bits, dtype=np.uint8)).view(">u4")
    return [int(x) for x in a], T


def opso_stream(R, target):
    perm = list(range(ALL))
    R.shuffle(perm)
    ws, k, T = [], 0, 0
    while k < target:
        js = ks = 0
        for h in (0, 10):
            if R.random() < .02 and k:
                v = perm[R.randrange(k)]
            else:
                v = perm[k]
                k += 1
            T += 1
            js |= v >> 10 << h
            ks |= (v & 1023) << h
            if k == target:
                break
        ws += [js | R.getrandbits(12) << 20, ks | R.getrandbits(12) << 20]
    return ws, T


def oqso_stream(R, target):
    perm = list(range(ALL))
    R.shuffle(perm)
    ws, k, T = [], 0, 0
    while k < target:
        x = [R.getrandbits(2) << 30 for _ in range(4)]
        for h in range(0, 30, 5):
            if R.random() < .02 and k:
                v = perm[R.randrange(k)]
            else:
                v = perm[k]
                k += 1
            T += 1
            for i in range(4):
                x[i] |= (v >> (15 - 5 * i) & 31) << h
            if k == target:
                break
        ws += x
    return ws, T


def dna_stream(R, target):
    """ten outputs are 32 columns of ten bits; a word is two neighbouring columns"""
    ws = [R.getrandbits(32) for _ in range(11)]
    seen = np.zeros((1024, 1024), dtype=bool)
    n = T = 0
    nb = 0
    while n < target:
        cols = [R.getrandbits(10)]
        if nb % 4096 < 8 and nb > 50:      # eight blocks of one word: 256 times
            cols = [0] * 32
        nb += 1
        while len(cols) < 32:
            for _ in range(40):
                v = R.getrandbits(10)
                if not seen[cols[-1], v]:
                    break
            cols.append(v)
            seen[cols[-2], v] = True
        # the last window wraps; recount the block exactly
        for x in range(10):
            ws.append(sum((cols[o] >> (9 - x) & 1) << o for o in range(32)))
        T += 32
        n = int(seen.sum()) if n > target - 2000 or nb % 64 == 0 else n + 31
        seen[cols[0], cols[1]] = True
        seen[cols[31], cols[0]] = True
    return ws, T


def np_missing(f, d, T):
    s = np.array(d, dtype=np.uint64)
    if f == "bitstream":
        b = np.unpackbits(s.astype(">u4").view(np.uint8)).astype(np.uint32)
        v = np.zeros(T, dtype=np.uint32)
        for i in range(20):
            v = v * 2 + b[8 + i:8 + i + T]
    elif f == "opso":
        p = s[:(T + 1) // 2 * 2].reshape(-1, 2)
        v = np.stack([(p[:, 0] >> h & 1023) * 1024 + (p[:, 1] >> h & 1023) for h in (0, 10)], 1).ravel()[:T]
    elif f == "oqso":
        p = s[:(T + 5) // 6 * 4].reshape(-1, 4)
        v = np.stack([sum((p[:, i] >> h & 31) << (15 - 5 * i) for i in range(4)) for h in range(0, 30, 5)], 1).ravel()[:T]
    else:
        p = s[11:11 + (T + 31) // 32 * 10].reshape(-1, 10)
        r = p | p << 32
        v = np.stack([sum((r[:, i] >> o & 3) << (18 - 2 * i) for i in range(10)) for o in range(32)], 1).ravel()[:T]
    u, pos, idx = np.unique(v, return_index=True, return_inverse=True)
    return {"missing": ALL - len(u), "u": u.tolist(), "pos": pos.tolist(), "idx": (idx + 1).tolist()}


def signed(d):
    return [x - (1 << 32) if x >> 31 else x for x in d]


def rank(rows):
    r, piv = 0, []
    for x in rows:
        for p in piv:
            x = min(x, x ^ p)
        if x:
            piv.append(x)
            r += 1
    return r


def matrix_stream(R, rows, cols, T):
    ws, m = [], 0xffffffff
    for _ in range(T):
        k = R.random()
        if k < .7:
            x = [R.getrandbits(32) for _ in range(rows)]
        elif k < .9:                        # random of low rank in the columns that count
            b = [R.getrandbits(32) for _ in range(R.randint(max(0, rows - 5), rows))]
            x = [0] * rows
            for i in range(rows):
                for y in b:
                    if R.getrandbits(1):
                        x[i] ^= y
                if cols < 32:
                    x[i] = (x[i] & ((1 << cols) - 1)) | R.getrandbits(32 - cols) << cols
        elif k < .94:
            x = [1 << R.randrange(32) for _ in range(rows)]
        elif k < .97:                       # identity in some order, in the rightmost columns
            x = [1 << i for i in range(rows)]
            R.shuffle(x)
        else:
            x = [R.choice([0, m, 1, 1 << 31])] * rows
        ws += x
    return ws


def run(c):
    R = c.rnd
    inv = "SPECIFICATION Spec\nINVARIANTS Exact Bounded Mirror\nPROPERTY OnlyLess\nCONSTANTS L = %d\nN = %d\nMod = %d\n"
    c.model("MMissing", inv % (3, c.n(11, 14), 0), min_states=1000)
    c.model_fails("MMissing", inv % (2, 8, 4))
    jobs = []
    make = {"bitstream": bitstream_stream, "opso": opso_stream, "oqso": oqso_stream, "dna": dna_stream}
    for f in make:
        for _ in range(c.n(1, 6)):
            jobs.append((f, R.getrandbits(64)))
    for f in ("bitstream", "bitstream", "opso", "oqso", "dna"):     # far from the mean: 0 or 1
        jobs.append((f + ":small", R.getrandbits(64)))
    for _ in range(c.n(2, 6)):
        jobs.append(("rank6:big", R.getrandbits(64)))
        jobs.append(("rank32:big", R.getrandbits(64)))
    for _ in range(c.n(4, 30)):
        jobs.append(("rank32", R.getrandbits(64)))
        jobs.append(("rank6", R.getrandbits(64)))

    def one(job):
        import random
        f, seed = job
        S = random.Random(seed)
        if f.startswith("rank"):
            big = f.endswith(":big")
            f = f.split(":")[0]
            rows, cols, test, low = (32, 32, 2, 29) if f == "rank32" else (6, 8, 3, 2)
            T = S.choice([40, 80, 150] if rows == 32 else [100, 600, 1000])
            w = S.choice([32, 32, 31, 16])
            ws = matrix_stream(S, rows, cols, T)
            if big:                         # no rank is pooled
                w, T = (32, 70000) if rows == 6 else (32, 1000)
                ws = [S.getrandbits(32) for _ in range(rows * T)]
                for t in S.sample(range(T), 40 if rows == 6 else 60):
                    ws[rows * t:rows * t + rows] = matrix_stream(S, rows, cols, 1)
            if w < 32:
                ws = streams.words(S, rows * T * 32 // w + 2, w, S.choice([None, 0, 0]))
            o = lib(streams.script(ws, w, test, T), what=f)[-1]
            d = streams.delivered(streams.outputs(ws, w, rows * T), w, rows * T)
            hi = [rank([x & ((1 << cols) - 1) for x in d[t * rows:(t + 1) * rows]]) for t in range(T)]
            h = [sum(max(low, x) == r for x in hi) for r in range(low, rows + 1)]
            pr = [.0052854502, .1283502644, .5775761902, .2887880952] if rows == 32 else [.149858E-06, .808926E-04, .936197E-02, .217439, .773118]
            chi, nd = vtest([(a, T * b) for a, b in zip(h, pr)], 5)
            return probs({"f": f, "s": signed(d), "T": T, "h": h}, o["p"][0], [Q(nd, chi)])
        small = f.endswith(":small")
        f = f.split(":")[0]
        if small:
            T = S.choice([1, 7, 100, 5000])
            ws = streams.words(S, 11 + 2 * T, 32)
        else:
            ws, T = make[f](S, ALL - 141909 + S.randint(-900, 900))
        o = lib(streams.script(ws, 32, NUM[f], T), what=f)[-1]
        d = streams.take(ws, {"bitstream": T // 32 + 2, "opso": T + 1, "oqso": (T + 5) // 6 * 4, "dna": 11 + (T + 31) // 32 * 10}[f])
        miss = np_missing(f, d, T)
        y, sg = MEAN[f]
        return probs(dict(miss, f=f, s=signed(d), T=T), o["p"][0], [phi((y - miss["missing"]) / sg)])
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(one, jobs))
    c.cases("TMissing", recs, "test on a given stream", parts=7, heap="3g")
    c.cov["streams"] = [[r["f"], r["T"], r.get("missing", r.get("h"))] for r in recs]
    mid = [r for r in recs if r["f"] == "rank6"][0]
    b = dict(mid, h=[mid["h"][0], mid["h"][1], mid["h"][2] + 1, mid["h"][3] - 1, mid["h"][4]])
    c.cases_rejected("TMissing", [b])
    c.cases_rejected("TMissing", [dict(mid, p=[(mid["p"][0] + 4096) % 10 ** 9])])
