"""C02: bit windows, tuples and rotations select exactly the requested bits."""
from . import check
from .synth import bits

ASSUMPTIONS = ["arguments in the documented range (out-of-range arguments make the library exit)"]


def run(c):
    for U in c.n([3], [3, 4]):
        c.model("MBitWindows", "SPECIFICATION Spec\nINVARIANT Laws\nCONSTANT U=%d\n" % U, min_states=100)
    R = c.rnd
    have = check.lib(["have"])[0]["lbits"]

    def word():
        return R.choice([R.getrandbits(32), R.getrandbits(32), 0xffffffff, 1 << R.randint(0, 31), 0xffffffff ^ (1 << R.randint(0, 31))])
    cs = []   # (script line, record without r, postprocessing)
    B = lambda v: bits(v, 32)
    one = lambda r: B(r["r"][0])
    for a in range(32):
        for b in range(a, 32):
            cs.append(("umask %d %d" % (a, b), {"f": "umask", "a": a, "b": b}, one))
            for o in ([R.randint(0, 31), R.randint(0, 31)] if not c.thorough else range(32)):
                x = word()
                cs.append(("win %d %d %d %d" % (x, a, b, o), {"f": "win", "x": B(x), "a": a, "b": b, "o": o}, one))
    for s in range(0, 32):
        for _ in range(c.n(4, 40)):
            x = word()
            cs.append(("rotr %d %d" % (x, s), {"f": "rotr", "x": B(x), "s": s}, one))
            if s:
                cs.append(("rotl %d %d" % (x, s), {"f": "rotl", "x": B(x), "s": s}, one))
            cs.append(("cycle %d %d" % (x, s + 1), {"f": "cycle", "x": B(x), "n": s + 1}, one))
            if have:
                n = R.randint(1, 32)
                cs.append(("wtup %d %d %d" % (x, n, s), {"f": "ntup", "in": [B(x)], "after": [B(x)], "w": 32, "n": n, "o": s}, one))
    for _ in range(c.n(1500, 20000)):
        il = R.randint(1, 7)
        n = R.choice([R.randint(1, il * 32), R.randint(1, min(il * 32, 70))])
        jl = R.randint((n + 31) // 32, 8)
        off = R.choice([R.randint(0, il * 32 - 1), 32 * R.randint(0, il - 1), (32 * R.randint(0, il) - n) % (il * 32)])
        if R.random() < .15:
            off += 32 * il * R.randint(1, 3)    # the start wraps around as well
        xs = [word() for _ in range(il)]
        cs.append(("cyc %d %d %d %d %s" % (il, jl, n, off, " ".join(map(str, xs))),
                   {"f": "cyc", "in": [B(x) for x in xs], "n": n, "o": off},
                   lambda r: [B(v) for v in r["r"]]))
    for _ in range(c.n(1200, 16000)):
        w = R.randint(1, 32)
        ln = R.randint(1, 6)
        m = (1 << w) - 1
        xs = [word() & m for _ in range(ln)]
        n = R.randint(1, min(32, w * ln))
        off = R.randint(0, w * ln - 1)
        t = " ".join(map(str, xs))
        cs.append(("ntup %d %d %d %d %s" % (w, ln, n, off, t), {"f": "ntup", "in": [B(x) for x in xs], "w": w, "n": n, "o": off}, one))
        g = R.randint(0, w * ln - 1)
        cs.append(("getbit %d %d %d %s" % (w, ln, g, t), {"f": "getbit", "in": [B(x) for x in xs], "w": w, "n": g}, lambda r: r["r"][0]))
        if have:
            cs.append(("utup %d %d %d %d" % (w, xs[0], n, off), {"f": "ntup", "in": [B(xs[0])], "after": [B(xs[0])], "w": w, "n": n, "o": off}, one))
        s = "".join(R.choice("01") for _ in range(R.randint(1, 32)))
        cs.append(("bit2uint %s %d" % (s, len(s)), {"f": "bit2uint", "s": [int(ch) for ch in s]}, one))
    rows = check.lib([x[0] for x in cs])
    recs = []
    for (line, rec, post), r in zip(cs, rows):
        rec["r"] = post(r)
        if "in" in r:
            rec["after"] = [B(v) for v in r["in"]]
        recs.append(rec)
    c.sample({"script": cs[-4][0], "result": rows[-4]})
    R.shuffle(recs)
    c.cases("TBitWindows", recs, "bit selection", consts="U=32", parts=8)
    import copy
    bad = copy.deepcopy([r for r in recs if r["f"] == "cyc"][0])
    bad["r"][-1][0] ^= 1
    c.cases_rejected("TBitWindows", [bad], consts="U=32")
