"""C04: outputs lie in the declared range, floating-point values in [0,1]."""
import os
import struct
from concurrent.futures import ThreadPoolExecutor

from . import files, gens
from .check import lib

ASSUMPTIONS = ["a long sample of outputs per generator and seed is observed, not the whole period",
               "generators of the GNU Scientific Library are not judged: a few of them leave their declared range (zuf, LCGs seeded beyond their modulus), which is that library's"]


def parts(v):
    return [(v >> 48) & 0xffff, (v >> 32) & 0xffff, (v >> 16) & 0xffff, v & 0xffff]


def dparts(d):
    return parts(struct.unpack("<Q", struct.pack("<d", d))[0])


def run(c):
    R = c.rnd
    m = "SPECIFICATION Spec\nINVARIANT Faithful\nCONSTANTS W = 3\nOuts = {%s}\nMaxOuts = %d\nMaxN = 4\n"
    c.model("MGenRange", m % ("0,1,2,3,4,5,6,7", c.n(6, 30)), min_states=50)
    c.model_fails("MGenRange", m % ("0,1,7,8", 3))
    types = gens.listed()
    soft = {g["num"] for g in gens.software(types)}
    jobs = []

    def add(g, setup, seeds, n, nd):
        for s in seeds:
            jobs.append((g, setup + ["gnew 0 %d" % g["num"], "gseed 0 %d" % s, "gskip 0 %d" % n, "gskipu 0 %d" % nd, "gskip 0 %d" % (n // 10)], s))
    for g in types:
        if g["num"] < 200:
            continue
        if g["num"] in soft:
            seeds = [0, 1, 2 ** 31, 2 ** 32 - 1] + [R.randint(2, 2 ** 32 - 2) for _ in range(c.n(12, 60))]
            slow = g["name"] in ("ca",)
            n = c.n(600000, 4000000)
            add(g, [], seeds, n // 4 if slow else n, n // 6)
        elif g["name"].startswith("/dev") and os.path.exists(g["name"]):
            add(g, [], [1, 2], c.n(20000, 200000), 5000)
        elif g["name"].startswith("XOR"):
            pool = sorted(soft)
            for k in range(c.n(10, 60)):
                cs = [R.choice(pool) for _ in range(R.choice([1, 2, 3, 5]))]
                add(g, ["xor %d %d %s" % (len(cs) + 1, g["num"], " ".join(map(str, cs)))], [R.randint(1, 2 ** 32 - 1)], 20000, 5000)
        elif g["name"] == "file_input_raw":
            p = files.raw(R, 3000)[0]
            add(g, ["file " + p], [1], 9000, 4000)
        elif g["name"] == "file_input":
            for t in ("d", "u", "o", "x", "X", "b", "f"):
                p = files.formatted(R, t, 300)[0]
                add(g, ["file " + p], [1], 900, 400)

    def one(j):
        g, sc, s = j
        rows = lib(sc, what="generator " + g["name"], timeout=600)
        a, d, b = rows[-3:]
        return {"g": g["name"], "seed": str(s), "min": parts(g["min"]), "max": parts(g["max"]), "lo": parts(min(a["lo"], b["lo"])),
                "hi": parts(max(a["hi"], b["hi"])), "dlo": dparts(d["dlo"]), "dhi": dparts(d["dhi"]), "nan": d["nan"]}
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(one, jobs))
    c.cases("TGenRange", recs, "range of outputs", parts=4)
    c.cov["generators"] = len({r["g"] for r in recs})
    c.cov["outputs_observed"] = sum(int(x.split()[2]) for j in jobs for x in j[1] if x.startswith("gskip"))
    c.sample(recs[0])
    for k, v in (("hi", parts(2 ** 32)), ("dhi", dparts(1.0000000000000002)), ("dlo", dparts(-1e-300)), ("nan", 1)):
        c.cases_rejected("TGenRange", [dict(recs[0], **{k: v})])

