"""C25: the project's own generators follow their defining recurrences."""
import copy
from concurrent.futures import ThreadPoolExecutor

from . import gens
from .check import lib

ASSUMPTIONS = ["seeds of 32 bits", "the outputs of the seeding generator (GSL's mt19937_1999) are taken from the library",
               "R generators: the integer is the uniform number times the largest output, cut off (one of two values for those "
               "whose uniform number is not exact)"]
# generator -> (scale of its floating-point output, needs seeding outputs)
SCALE = {"R_mersenne_twister": 4294967296.0, "R_knuth_taocp": 1073741824.0, "R_knuth_taocp2": 1073741824.0}
SEEDED = {"kiss": 40, "superkiss": 41790, "uvag": 64}
OWN = ["kiss", "superkiss", "AES_OFB", "Threefish_OFB", "R_wichmann_hill", "R_marsaglia_multic.", "R_super_duper",
       "R_mersenne_twister", "R_knuth_taocp", "R_knuth_taocp2", "ca", "uvag"]


def b4(x):
    return [x >> 8 * i & 255 for i in range(4)]


def back(name, d):
    """The integer a floating-point output stands for."""
    if name == "R_wichmann_hill":
        return int(d * 4294967295.0)
    v = d * SCALE.get(name, 4294967295.0)
    i = int(round(v))
    return i if abs(v - i) < 1e-4 else (1 << 33) + 5


def plan(R, n, floats):
    """Draws: runs of integers and floating-point numbers, n together."""
    p = []
    while n:
        k = min(n, R.choice([1, 2, 3, 17, 100, 1000]))
        p.append((k, 1 if floats and R.random() < .4 else 0))
        n -= k
    return p


def record(job):
    num, name, seed, before, draws, twin = job
    sc = ["gnew 0 %d" % num]
    if before is not None:
        sc += ["gseed 0 %d" % before[0], "gget 0 %d" % before[1]]
    sc.append("gseed 0 %d" % seed)
    if twin is not None:                 # another generator of the project at work in between
        sc += ["gnew 1 %d" % twin[0], "gseed 1 %d" % twin[1]]
    at = len(sc)
    for i, (k, u) in enumerate(draws):
        sc.append("%s 0 %d" % ("guni" if u else "gget", k))
        if twin is not None:
            sc.append("gget 1 3")
    rows = lib(sc, what="generator " + name)
    v, us = [], []
    for i, (k, u) in enumerate(draws):
        r = rows[at + i * (1 if twin is None else 2)]["r"]
        v += [back(name, x) if u else x for x in r]
        us += [u] * k
    K = []
    if name in SEEDED:
        K = lib(["gnew 0 14", "gseed 0 %d" % seed, "gget 0 %d" % SEEDED[name]])[2]["r"]
    return {"f": name, "s": b4(seed), "K": [b4(x) for x in K], "v": [b4(x) if x < 1 << 32 else [-1] for x in v], "u": us}


def lcg_back(x, n):
    """The seed whose n-th scrambled value is x."""
    inv = pow(69069, -1, 1 << 32)
    for _ in range(n):
        x = (x - 1) * inv % (1 << 32)
    return x


def special(R, name):
    """Seeds on which the generator's repair of its starting values acts."""
    m = {"R_wichmann_hill": [(51, 30269), (52, 30307), (53, 30323)], "R_marsaglia_multic.": [(51, 1 << 32), (52, 1 << 32)],
         "R_super_duper": [(51, 1 << 32), (52, 1 << 32)], "R_knuth_taocp": [(50, 1073741821)], "R_knuth_taocp2": [(50, 1073741821)]}.get(name, [])
    s = [lcg_back(k * R.randrange(0, (1 << 32) // k), n) for n, k in m]
    if name in ("R_knuth_taocp", "R_knuth_taocp2"):
        s += [lcg_back(k * R.randrange(0, 3) + d, 50) for k in [1073741821] for d in (-1, 1)]
    return [x % (1 << 32) for x in s] + {"ca": [0xffffffff, 0xfffffffe]}.get(name, [])


def models(c):
    cfg = "SPECIFICATION Spec\nCONSTANTS Kind = \"%s\" Variant = \"%s\" W = %d S = %d Len1 = %d\nINVARIANT Delivered\n"
    for kind, w, s, n, bad in (("ca", 6, 2, 7, ("wrap", "leftfirst")), ("block", 3, 1, 8, ("short", "stay")), ("mwc", 3, 1, 8, ("carry", "twice"))):
        c.model("MOwnGens", cfg % (kind, "", w, s, n))
        for b in bad:
            c.model_fails("MOwnGens", cfg % (kind, b, w, s, n))


def run(c):
    R = c.rnd
    models(c)
    num = {g["name"]: g["num"] for g in gens.listed()}
    own = [n for n in OWN if n in num]
    if len(own) != len(OWN):
        from .check import Violation
        raise Violation("generators of the project are not registered: %s" % sorted(set(OWN) - set(own)), {"listed": sorted(num)})
    edge = [0, 1, 0xffffffff, 0x80000000, 0x7fffffff, 0xfffffffe, 255, 256, 65536]
    seeds = lambda k: R.sample(edge, min(len(edge), k - k // 2)) + [R.getrandbits(32) for _ in range(k // 2)]
    size = {"kiss": (16, 100, 2000), "AES_OFB": (16, 100, 200), "Threefish_OFB": (12, 60, 90), "R_wichmann_hill": (12, 60, 800),
            "R_marsaglia_multic.": (16, 100, 2000), "R_super_duper": (16, 100, 2000), "R_mersenne_twister": (8, 40, 1400),
            "R_knuth_taocp": (8, 40, 420), "R_knuth_taocp2": (8, 40, 420), "uvag": (16, 100, 2000), "ca": (6, 30, 1100),
            "superkiss": (2, 8, 41790 + 500)}
    jobs = []
    for name in own:
        q, t, n = size[name]
        for s in special(R, name) + seeds(c.n(q, t)):
            before = (R.getrandbits(32), R.choice([1, 50, 700])) if R.random() < .5 else None
            tw = R.choice([x for x in own if x not in ("ca", "superkiss")])
            twin = (num[tw], R.getrandbits(32)) if R.random() < .5 else None
            jobs.append((num[name], name, s, before, plan(R, R.randint(n // 2, n) if name != "superkiss" else n, True), twin))
        if name == "superkiss":          # every seed, short
            for s in seeds(3):
                jobs.append((num[name], name, s, None, plan(R, 700, True), None))
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(record, jobs))
    for g in own:
        c.sample({"generator": g, "outputs": sum(len(r["v"]) for r in recs if r["f"] == g)}) if len(c.samples) < 6 else None
    c.cov["outputs_checked"] = {g: sum(len(r["v"]) for r in recs if r["f"] == g) for g in own}
    c.cov["seeds"] = {g: sum(r["f"] == g for r in recs) for g in own}
    order = {"ca": 0, "superkiss": 1}
    recs.sort(key=lambda r: order.get(r["f"], 2))
    recs = [r for i in range(8) for r in recs[i::8]]
    c.cases("TOwnGens", recs, "own generators", parts=8, timeout=400)
    for g in own:
        if g in ("ca", "superkiss"):
            continue
        bad = copy.deepcopy([r for r in recs if r["f"] == g][0])
        i = R.randrange(10)
        bad["v"] = bad["v"][:10]
        bad["v"][i][1] ^= 1
        c.cases_rejected("TOwnGens", [bad])
