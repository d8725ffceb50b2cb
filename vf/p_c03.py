"""C03: a software generator's stream is a function of its seed alone."""
import copy
import threading
from concurrent.futures import ThreadPoolExecutor

from . import gens
from .check import lib

ASSUMPTIONS = ["the reference stream of a seed is the one a process shows that only seeds one generator and draws from it; "
               "generator kinds are interleaved as a seeded random sample of histories"]
# a stream is observed in slots: single outputs and the hash of a long block
SLOTS = [1] * 20 + [700] + [1] * 12 + [45000] + [1] * 10
_refs, _lock = {}, threading.Lock()


def draw(i, kind, a, b):
    """Commands that draw slots a..b-1, and a reader of their results."""
    sc, k = [], a
    while k < b:
        if SLOTS[k] == 1:
            n = 1
            while k + n < b and SLOTS[k + n] == 1:
                n += 1
            sc.append("%s %d %d" % ("gget" if kind == "int" else "guni", i, n))
            k += n
        else:
            sc.append("%s %d %d" % ("gskip" if kind == "int" else "gskipu", i, SLOTS[k]))
            k += 1
    return sc


def values(rows):
    v = []
    for r in rows:
        v += [r["h"]] if "h" in r else [repr(x) for x in r["r"]]
    return v


def ref(key):
    """The (integer, floating-point) stream of a generator and seed, from two fresh processes."""
    num, s = key
    out = []
    for kind in ("int", "dbl"):
        sc = ["gnew 0 %d" % num, "gseed 0 %d" % s] + draw(0, kind, 0, len(SLOTS))
        out.append(values(lib(sc, what="generator %d" % num)[2:]))
    return out


def history(R, pool, seeds, c):
    """One script and its events, for a process that handles several generators."""
    sc, plan, at, kind = [], [], {}, {}
    for _ in range(c):
        # most often related kinds, so that shared state shows
        ids = list(range(R.choice([1, 2, 2, 3, 4])))
        fam = R.choice(pool)
        for i in list(at):
            if R.random() < .7:
                sc.append("gfree %d" % i)
                plan.append(("free", i, 1))
                del at[i]
        for i in ids:
            g = fam if R.random() < .6 else R.choice(pool)
            sc.append("gnew %d %d" % (i, g["num"]))
            plan.append(("seed", i, 1, (g["num"], 0)))
            kind[i], at[i] = g["num"], 0
        for _ in range(R.randint(6, 22)):
            i = R.choice(ids)
            if R.random() < .25 or at[i] == len(SLOTS):
                s = R.choice(seeds)
                sc.append("gseed %d %d" % (i, s))
                plan.append(("seed", i, 1, (kind[i], s)))
                at[i] = 0
                continue
            n = min(len(SLOTS) - at[i], R.choice([1, 1, 2, 3, 8, 14, 44]))
            k = R.choice(["int", "int", "dbl"])
            d = draw(i, k, at[i], at[i] + n)
            sc += d
            plan.append((k, i, len(d)))
            at[i] += n
    return sc, plan


def run(c):
    R = c.rnd
    m = 'SPECIFICATION Spec\nINVARIANT SeedAlone\nCONSTANTS Gens = {1, 2}\nSeeds = {1, 2}\nMaxLen = 2\nMaxOps = %d\nVariant = "%s"\n'
    c.model("MGenStream", m % (c.n(6, 8), "none"), min_states=500)
    for v in ("shared", "left over", "double draw"):
        c.model_fails("MGenStream", m % (6, v))
    soft = gens.software()
    own = [g for g in soft if g["num"] >= 200]
    seeds = [0, 1, 2 ** 32 - 1, R.randint(2, 2 ** 31), R.randint(2 ** 31, 2 ** 32 - 2)]
    if c.thorough:
        seeds += [2 ** 31, 12345] + [R.randint(2, 2 ** 32 - 2) for _ in range(20)]
    keys = [(g["num"], s) for g in soft for s in seeds]
    with ThreadPoolExecutor(8) as ex:
        refs = dict(zip(keys, ex.map(ref, keys)))
    jobs = []
    for k in range(c.n(60, 600)):
        jobs.append(history(R, own if k % 2 else own * 3 + soft, seeds, R.choice([1, 4, 9])))
    # every generator: seeded, drawn from, seeded again with the same and another value
    for g in soft:
        sc, plan = ["gnew 0 %d" % g["num"], "gnew 1 %d" % g["num"]], [("seed", 0, 1, (g["num"], 0)), ("seed", 1, 1, (g["num"], 0))]
        for i, s, k, n in ((0, 1, "int", 25), (0, 1, "dbl", 44), (1, seeds[3], "int", 5), (0, 1, "int", 7), (0, seeds[4], "dbl", 3),
                           (1, 1, "dbl", 22), (0, 0, "int", 34)):
            d = draw(i, k, 0, n)
            sc += ["gseed %d %d" % (i, s)] + d
            plan += [("seed", i, 1, (g["num"], s)), (k, i, len(d))]
        jobs.append((sc, plan))

    def one(j):
        sc, plan = j
        rows = lib(sc, what="generator history")
        ev, p = [{"e": "restart"}], 0
        for x in plan:
            e = {"e": x[0], "i": x[1]}
            if x[0] == "seed":
                e["I"], e["D"] = refs[x[3]]
                e["g"] = list(x[3])
                e["g"][1] = str(e["g"][1])
            elif x[0] != "free":
                e["v"] = values(rows[p:p + x[2]])
            p += x[2]
            ev.append(e)
        return ev
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))

    def val(part):
        flat = [e for ev in part for e in ev]

        def describe(m):
            o = 0
            for ev, j in zip(part, [jobs[res.index(ev)] for ev in part]):
                if o + len(ev) > m:
                    return {"script": j[0][:400]}
                o += len(ev)
        c.trace("TGenStream", flat, "generator histories", ntraces=len(part), describe=describe)
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(val, [res[i::6] for i in range(6)]))
    c.cov["generators"] = len(soft)
    c.cov["seeds"] = len(seeds)
    c.sample({"script": jobs[1][0][:10]})
    e = copy.deepcopy([ev for ev in res if any(x["e"] == "dbl" for x in ev)][0])
    [x for x in e if x["e"] == "dbl"][-1]["v"][-1] = "0.5"
    c.trace_rejected("TGenStream", e)
