"""C19: binary matrix rank is the rank over GF(2)."""
import itertools

from .check import lib

ASSUMPTIONS = ["matrices of at least one row and one column"]


def run(c):
    R = c.rnd
    m = "SPECIFICATION Spec\nINVARIANTS Agree RowIsColumn Bounds\nCONSTANTS M = %d\nN = %d\nColumnMix = %s\n"
    shapes = c.n([(1, 3), (3, 1), (2, 3), (3, 3), (4, 2), (2, 4)], [(1, 4), (4, 1), (2, 3), (3, 3), (4, 3), (3, 4), (5, 2), (2, 6)])
    for a, b in shapes:
        c.model("MRank", m % (a, b, "FALSE"), min_states=2)
    c.model_fails("MRank", m % (2, 2, "TRUE"))
    cs = []     # (m, n, rows as integers, garbage beyond the columns)

    def add(n, rows, off=0):
        cs.append((len(rows), n, rows, off))
    # every matrix of the small shapes
    for a in range(1, 7):
        for b in range(1, 7):
            if a * b <= c.n(9, 12):
                for v in itertools.product(range(1 << b), repeat=a):
                    add(b, list(v))
    # every small pattern again across the word boundaries
    for pos in (31, 30, 63, 62, 95):
        for v in itertools.product(range(4), repeat=3):
            add(pos + 3, [x << pos for x in v])
            add(pos + 2, [x << pos | R.getrandbits(pos) for x in v])
            add(pos + 2, [x << pos | (x & 1) for x in v])

    def comb(base):
        v = 0
        for x in base:
            if R.random() < .5:
                v ^= x
        return v
    for _ in range(c.n(700, 8000)):
        a = R.choice([1, 2, 3, 6, 6, 8, 16, 31, 32, 32, 33, 40, 64])
        b = R.choice([1, 2, 7, 8, 8, 31, 32, 32, 33, 34, 63, 64, 65, 96, 97, 100])
        kind = R.randrange(6)
        if kind == 0:
            rows = [R.getrandbits(b) for _ in range(a)]
        elif kind == 1:          # of a chosen rank (at most)
            base = [R.getrandbits(b) for _ in range(R.randint(0, min(a, b)))]
            rows = [comb(base) for _ in range(a)]
        elif kind == 2:          # sparse
            rows = [(1 << R.randrange(b)) | (1 << R.randrange(b)) for _ in range(a)]
        elif kind == 3:          # only the high columns
            lo = R.randint(0, b - 1)
            rows = [R.getrandbits(b) >> lo << lo for _ in range(a)]
        elif kind == 4:          # repeated and zero rows
            pool = [0] + [R.getrandbits(b) for _ in range(3)]
            rows = [R.choice(pool) for _ in range(a)]
        else:                    # triangular with a shuffle, full rank
            rows = [(1 << (i % b)) | (R.getrandbits(b) >> ((i % b) + 1) << ((i % b) + 1)) for i in range(a)]
            R.shuffle(rows)
        add(b, rows, R.choice([0, 0, 1]))
    script, recs = [], []
    for a, b, rows, off in cs:
        w = (b + 31) // 32
        top = R.getrandbits(32 * w) >> b << b if off else 0
        script.append("rank %d %d %s" % (a, b, " ".join(str((x | (top if off else 0)) >> (32 * j) & 0xffffffff) for x in rows for j in range(w))))
        recs.append({"m": a, "n": b, "rows": [[j for j in range(b) if x >> j & 1] for x in rows]})
    for r, o in zip(recs, lib(script)):
        r["r"] = o["r"][0]
    c.cases("TRank", recs, "rank", parts=8)
    c.cov["matrices"] = len(recs)
    c.cov["wider_than_a_word"] = sum(r["n"] > 32 for r in recs)
    c.sample(recs[-1])
    bad = dict(recs[-1])
    bad["r"] += 1
    c.cases_rejected("TRank", [bad])
