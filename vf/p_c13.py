"""C13: raw file input."""
import copy
import os
import stat
from concurrent.futures import ThreadPoolExecutor

from . import build, files
from .check import lib

ASSUMPTIONS = ["little-endian host (the words of the file are read in host order)"]
GEN = 201


def models(c):
    m = "SPECIFICATION Spec\nINVARIANTS Counted Jump\nPROPERTIES InOrder Apart\nCONSTANTS MaxTot = %d\nVariant = \"%s\"\n"
    c.model("MFileCursor", m % (c.n(7, 12), "none"), min_states=1000)
    for v in ("late", "keeprw"):
        c.model_fails("MFileCursor", m % (6, v))


def script(R, gen, mk, nops):
    """One library script over several generators; (script, meta)."""
    sc, meta = ["nfds"], [{"e": "begin"}]
    alive = {}
    base = None
    for _ in range(nops):
        a = R.choice(["get"] * 6 + ["new", "seed", "reopen", "stat", "stat", "fds"])
        if a == "new" or not alive:
            if len(alive) == 5:
                continue        # (freeing a generator does not close its file: the GSL has no hook for that)
            g = len(alive)
            p, F, f = mk()
            alive[g] = [p, len(F)]
            sc += ["file %s" % p, "gnew %d %d" % (g, gen)]
            meta += [None, {"e": "open", "g": g, "F": F, "f": f}]
            if R.random() < .7:
                sc.append("gseed %d %d" % (g, R.randint(1, 2 ** 32 - 1)))
                meta.append({"e": "seed", "g": g})
            continue
        g = R.choice(list(alive))
        p, n = alive[g]
        if a == "seed":
            sc += ["file %s" % p, "gseed %d %d" % (g, R.randint(1, 2 ** 32 - 1))]
            meta += [None, {"e": "seed", "g": g}]
        elif a == "reopen":
            p, F, f = mk()
            alive[g] = [p, len(F)]
            sc += ["file %s" % p, "gseed %d %d" % (g, R.randint(1, 2 ** 31))]
            meta += [None, {"e": "reopen", "g": g, "F": F}]
        elif a == "stat":
            sc.append("fstat %d" % g)
            meta.append({"e": "stat", "g": g})
        elif a == "fds":
            sc.append("nfds")
            meta.append({"e": "fds"})
        else:
            k = R.choice([1, 1, 2, n - 1, n, n + 1, 2 * n, R.randrange(1, 40), 3 * n + 1])
            # the header of a formatted file is read through the current file's settings: select it first
            sc += ["file %s" % p, "gget %d %d" % (g, max(1, k))]
            meta += [None, {"e": "get", "g": g}]
    return sc, meta


def fill(sc, meta, rows):
    base = rows[0]["r"][0]
    ev = []
    for e, r in zip(meta, rows):
        if e is None:
            continue
        e = dict(e)
        if e["e"] == "get":
            e["v"] = [files.hl(x) for x in r["r"]]
        elif e["e"] == "stat":
            e["tot"], e["rw"] = r["r"]
        elif e["e"] == "fds":
            e["n"] = r["r"][0] - base
        ev.append(e)
    return ev


def library(c, gen, mk, n, nops, what):
    jobs = [script(c.rnd, gen, mk, nops) for _ in range(n)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: lib(j[0], what=what), jobs))
    ev = []
    for (sc, meta), rows in zip(jobs, res):
        ev += fill(sc, meta, rows)
    c.trace("TFileCursor", ev, what, ntraces=n)
    return ev


def corrupt(c, ev):
    i = [k for k, e in enumerate(ev) if e["e"] == "get" and len(e["v"]) > 2][2]
    for f in (lambda v: v.reverse(), lambda v: v.pop(1), lambda v: v.insert(1, v[0])):
        bad = copy.deepcopy(ev[:i + 2])
        v = bad[i]["v"]
        v[1] = [v[1][0] ^ 1, v[1][1]]
        f(v)
        c.trace_rejected("TFileCursor", bad)
    i = [k for k, e in enumerate(ev) if e["e"] == "stat"][1]
    for f in ("tot", "rw"):
        bad = copy.deepcopy(ev[:i + 1])
        bad[i][f] += 1
        c.trace_rejected("TFileCursor", bad)


def run(c):
    R = c.rnd
    models(c)
    ev = library(c, GEN, lambda: files.raw(R, R.choice([16, 17, 18, 20, 31, 64, 100])), c.n(16, 150), c.n(60, 120), "raw file generator")
    c.sample(ev[1:4])
    corrupt(c, ev)
    # ---- the program: words, rewinds and totals of whole runs
    jobs = []
    for i in range(c.n(40, 300)):
        path = None
        if i % 5 == 0:
            d = os.path.join(build.scratch(), *["d" * R.randint(20, 60) for _ in range(R.randint(1, 4))])
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "f%d-" % i + "x" * R.randint(1, 100))
        n = R.choice([16, 17, 19, 40, 64, 1000])
        p, F, f = files.raw(R, n, path=path)
        jobs.append((GEN, p, F, f, R.choice([0, 2, 15, 100, 203]), R.choice([1, 2, 3, 7]), R.choice([0, 1, n // 2, n - 1, n, n + 1, 3 * n]),
                     R.randint(0, 1), R.choice([0, 1, 77, 4294967295])))
    for strat in (0, 1):
        p, F, f = files.raw(R, R.randint(16, 300))
        jobs.append((GEN, p, F, f, 0, 0, R.choice([1, 7]), strat, 5, True, True))
    # ---- files that cannot be used
    un = os.path.join(build.scratch(), "nowhere-%d" % c.seed)
    bad = [(un, {"kind": "raw", "there": False, "dir": False, "words": 0}),
           (build.scratch(), {"kind": "raw", "there": True, "dir": True, "words": 0})]
    for n in (0, 1, 7, 14, 15):
        for t in (0, 3):
            bad.append((files.raw(R, n, tail=t)[0], {"kind": "raw", "there": True, "dir": False, "words": n}))
    for p, f in bad:
        for strat in (0, 1):
            jobs.append((GEN, p, None, f, R.choice([0, 15, 100]), 1, 3, strat, R.choice([0, 9])))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: files.cli(*j), jobs))
    flat, pos = [], []
    for e, a in res:
        pos.append((len(flat), a))
        flat += e
    c.trace("TFileCursor", flat, "runs on a raw file", ntraces=len(jobs),
            describe=lambda m: "command line: " + " ".join([a for o, a in pos if o <= m][-1]))
    c.sample(res[0][0][-2:])
    c.add("files_refused", len(bad) * 2)
    # ---- two raw file generators combined: their own places in the same file
    p, F, f = files.raw(R, 19)
    r = lib(["file %s" % p, "gnew 0 %d" % GEN, "gseed 0 3", "gnew 1 %d" % GEN, "gseed 1 3", "gget 0 60", "gget 1 60"], what="two generators")
    c.trace("TFileCursor", [{"e": "begin"}, {"e": "open", "g": 0, "F": F, "f": f}, {"e": "open", "g": 1, "F": F, "f": f},
                            {"e": "get", "g": 0, "v": [files.hl(x) for x in r[5]["r"]]},
                            {"e": "get", "g": 1, "v": [files.hl(x) for x in r[6]["r"]]}], "two raw file generators")
    # ---- decimals of the stream are the words over the largest word
    k = c.n(200, 2000)
    r = lib(["file %s" % p, "gnew 0 %d" % GEN, "gseed 0 3", "guni 0 %d" % k])
    v = [int(round(x * 0xffffffff)) for x in r[3]["r"]]
    c.trace("TFileCursor", [{"e": "begin"}, {"e": "open", "g": 0, "F": F, "f": f}, {"e": "get", "g": 0, "v": [files.hl(x) for x in v]}],
            "decimals from a raw file")
