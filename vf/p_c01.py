"""C01: the bits under test are exactly the generator's bits."""
from . import check
from .synth import bits

ASSUMPTIONS = ["generators return values of at most 32 bits (the declared maximum's bit length is the output width)",
               "a request that exceeds the documented capacity (128 bits, or the result vector) delivers nothing"]
EXH = """SPECIFICATION Spec
INVARIANT StreamIntact
VIEW View
CONSTANTS U=%d W=%d B=%d ClearWhenExact=%s KeepLeftover=%s
"""


def record(c, w, lo, hi, mode, nreq, kinds):
    """Drive the real delivery functions with a random request sequence."""
    have = check.lib(["have"])[0]["lbits"]
    script, meta = ["gen %d %d %d %d" % (lo, hi, mode, c.rnd.getrandbits(31)), "reset"], [None, ("reset",)]
    for _ in range(nreq):
        k = c.rnd.choice(kinds)
        if k == "lbits" and not have:
            k = "word"
        if k == "word":
            script.append("uint")
            meta.append(("word",))
        elif k == "bits":
            rs = c.rnd.randint(1, 6)
            n = c.rnd.choice([c.rnd.randint(0, min(128, rs * 32)), c.rnd.choice([1, 8, 16, 24, 31, 32, 33, 64, 96, 127, 128])])
            while n > rs * 32:
                n = c.rnd.randint(0, rs * 32)
            script.append("bits %d %d" % (n, rs))
            meta.append(("bits", n, rs))
        elif k == "lbits":
            n = c.rnd.choice([c.rnd.randint(1, 32), w, 32, 1])
            script.append("lbits %d %d" % (n, c.rnd.randint(0, 1)))
            meta.append(("lbits", n))
        else:
            script.append("reset")
            meta.append(("reset",))
    rows = check.lib(script, what="width %d" % w)
    ev = []
    for m, r in zip(meta, rows):
        if m is None:
            continue
        d = [bits(x, w) for x in r.get("d", [])]
        if m[0] == "reset":
            ev.append({"e": "reset"})
        elif m[0] == "word":
            ev.append({"e": "word", "d": d, "r": bits(r["r"][0], 32)})
        elif m[0] == "lbits":
            ev.append({"e": "lbits", "n": m[1], "d": d, "r": [(r["r"][0] >> (m[1] - 1 - i)) & 1 for i in range(m[1])]
                       if r["r"][0] >> m[1] == 0 else [9]})
        else:
            n, rs = m[1], m[2]
            v = 0
            for x in r["r"]:
                v = v << 32 | x
            ev.append({"e": "bits", "n": n, "d": d, "r": bits(v, n), "pad": 0 if v >> n == 0 else 1})
    return ev


def run(c):
    # the buffering algorithm itself, exhaustively, at small word and ring sizes
    for U, B in c.n([(4, 4)], [(4, 4), (5, 5), (8, 4), (8, 6)]):
        for W in range(1, U + 1):
            c.model("BitBuffers", EXH % (U, W, B, "TRUE", "TRUE"))
    c.model_fails("BitBuffers", EXH % (4, 2, 4, "FALSE", "TRUE"))
    c.model_fails("BitBuffers", EXH % (4, 3, 4, "TRUE", "FALSE"))
    # the real code, all widths
    allev, ntr = [], 0
    for w in range(1, 33):
        shapes = [(0, (1 << w) - 1, 0)]
        if w > 1:
            shapes.append((c.rnd.randint(0, 1), c.rnd.randint(1 << (w - 1), (1 << w) - 1), c.rnd.choice([0, 5])))
        for rep in range(c.n(1, 6)):
            for lo, hi, mode in shapes:
                for kinds in (["word"], ["bits"], ["lbits"], ["word", "word", "bits", "lbits", "lbits", "reset"]):
                    nr = c.n(26, 80)
                    ev = record(c, w, lo, hi, mode, nr, kinds + (["reset"] if len(kinds) == 1 and c.rnd.random() < .3 else []))
                    allev.append((w, ev))
                    ntr += 1
    c.sample({"width": allev[10][0], "events": [{k: (v if k != "d" else len(v)) for k, v in e.items()} for e in allev[10][1][:3]]})
    parts = [[] for _ in range(8)]
    for i, (w, ev) in enumerate(allev):
        parts[i % 8].append((w, ev))
    from concurrent.futures import ThreadPoolExecutor

    def one(part):
        flat = [e for _, ev in part for e in ev]
        pos, off = [], 0
        for w, ev in part:
            pos.append((off, w))
            off += len(ev)
        c.trace("TBitStream", flat, "bit delivery", ntraces=len(part), consts="U=32",
                describe=lambda m: "generator width %d" % [w for o, w in pos if o <= m][-1])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, parts))
    # binding: flipping, dropping or doubling one bit must be rejected
    import copy
    base = allev[12][1]
    k = max(i for i, e in enumerate(base) if e["e"] != "reset" and len(e["r"]) > 2)
    for op in range(2):
        bad = copy.deepcopy(base)
        if op == 0:
            bad[k]["r"][1] ^= 1
        else:
            bad[k]["r"] = bad[k]["r"][1:] + [1 - bad[k]["r"][0]]
        c.trace_rejected("TBitStream", bad, consts="U=32")
