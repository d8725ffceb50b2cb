"""C05: a seeded run is reproducible; a test's row is the same alone or in a series."""
from concurrent.futures import ThreadPoolExecutor
from . import session
from .check import Violation

ASSUMPTIONS = ["standard sample sizes are capped (by the harness, identically in all runs) so that all tests run in seconds",
               "generators too narrow for a test (the GSL aborts when a test asks for an integer beyond the generator's range) "
               "are run with scripted tests that draw words and bit strings instead",
               "the timing column and non-deterministic devices are excluded"]
GENS = "w13:0:8191,w15:0:32766,w17:0:100000,w24:0:16777215,w26:1:67108863,w31:1:2147483646,w32:0:4294967295"
NARROW = "n1:0:1,n2:0:3,n3:0:7,n5:1:30,n8:0:255,n11:0:2047,n23:0:8388607,n32:0:4294967295"
MODEL = "SPECIFICATION Spec\nINVARIANT Alone\nCONSTANTS W=%d Tests=3 MaxTake=%d Discard=%s\n"


def rows(gen, cf, items, pos=False):
    """Row events keyed by everything that may determine them."""
    out, seen = [], {}
    i = 0
    for it in items:
        if it["e"] == "row":
            f = it["f"]
            k = [gen, cf["seed"], cf["strat"]] + f[:5]
            s = seen[tuple(k)] = seen.get(tuple(k), 0) + 1
            if pos:
                k += ["at", i]
                i += 1
            out.append({"k": "/".join(map(str, k + [s])), "v": "/".join(f[5:])})
        elif it["e"] == "run" and "w" in it:
            k = [gen, cf["seed"], cf["strat"], "run", it["t"], it["nt"], it["i"]]
            if pos:
                k += ["at", i]
            out.append({"k": "/".join(map(str, k)), "v": "/".join(it["w"])})
    return out


def run(c):
    for W in c.n([2, 3], [1, 2, 3, 4, 5]):
        c.model("MRepro", MODEL % (W, 6, "TRUE"), min_states=10)
    c.model_fails("MRepro", MODEL % (3, 6, "FALSE"))
    R = c.rnd
    names = [g.split(":")[0] for g in GENS.split(",")] + ["mt19937"]
    if not c.thorough:
        names = R.sample(names[:-1], 4) + ["mt19937"]
    jobs = []
    for gi, g in enumerate(names):
        seed = str(R.choice([1, 4294967295, R.getrandbits(32) or 1]))
        small = "%d,%d" % (R.randint(1, 3), R.choice([500, 1000, 1777]))
        env = {"VT_SMALL": small}
        kw = dict(stub=False, gen=g, gens=GENS, env=env, timeout=200)
        series = session.default()
        series.update(all=True, seed=seed, strat=1)
        plain = dict(series, strat=0)
        jobs += [(g, series, kw, False), (g, plain, kw, True), (g, plain, kw, True)]
        sched = []
        for t in list(range(18)) + [100, 101, 102] + list(range(200, 212)):
            if t == 200:
                ns = R.sample(range(1, 13), c.n(4, 12))
            elif t in (201, 202):
                ns = range(2, 6)
            elif t == 203:
                ns = R.sample(range(0, 33), c.n(5, 33))
            else:
                ns = [0]
            sched += [(t, n) for n in ns]
        if not c.thorough and gi not in (0, len(names) - 1):
            sched = [x for x in sched if x[0] != 211]
        for t, n in sched:
            alone = session.default()
            alone.update(d=t, n=n, seed=seed, strat=1)
            jobs.append((g, alone, kw, False))

    def one(j):
        g, cf, kw, pos = j
        items, code, av = session.run(cf, **kw)
        if code != 0:
            raise Violation("dieharder %s ends with status %d" % (" ".join(av), code), {"argv": av, "env": kw["env"]})
        return rows(g, cf, items, pos), av
    # narrow generators: scripted tests that record the words and bit strings they are handed
    narrow = [x.split(":")[0] for x in NARROW.split(",")]
    for g in narrow:
        seed = str(R.getrandbits(32) or 1)
        kw = dict(gen=g, gens=NARROW, env={"VT_BITS": str(R.choice([3, 4, 5, 8]))})
        for strat in (0, 1):
            series = session.default()
            series.update(all=True, mn=0, seed=seed, strat=strat)
            jobs += [(g, series, kw, strat == 0)] * 2
        for t, n in R.sample([(t, 0) for t in range(18)] + [(200, 7), (201, 3), (202, 4), (203, 9), (207, 0), (211, 0)], c.n(8, 24)):
            alone = session.default()
            alone.update(d=t, n=n, mn=0, seed=seed, strat=1)
            jobs.append((g, alone, kw, False))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    ev, where = [], []
    for r, av in res:
        ev += r
        where += [" ".join(av)] * len(r)
    c.sample({"argv": res[5][1], "rows": res[5][0]})
    c.add("rows_compared", len(ev) - len({e["k"] for e in ev}))
    # every row of a series must also have been produced alone or twice: group by generator
    for g in names + narrow:
        sel = [i for i, e in enumerate(ev) if e["k"].startswith(g + "/")]
        assert sel
        c.trace("TRepro", [ev[i] for i in sel], "results as a function of the seed", ntraces=len([j for j in jobs if j[0] == g]),
                describe=lambda m, s=sel: "command line: dieharder " + where[s[m]])
    bad = [dict(e) for e in ev[:300]] + [dict(ev[0], v=ev[0]["v"] + "x")]
    c.trace_rejected("TRepro", bad)
