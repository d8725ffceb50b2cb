"""C14: formatted file input."""
from concurrent.futures import ThreadPoolExecutor
import os

from . import build, files
from . import p_c13
from .check import lib

ASSUMPTIONS = ["decimals are given with a value of exact binary form, so that scaling to 32 bits has one answer"]
GEN = 202
TYPES = "diueEfFgoxXb"


def run(c):
    R = c.rnd
    p_c13.models(c)

    def mk():
        t = R.choice(TYPES)
        return files.formatted(R, t, R.choice([1, 1, 2, 3, 5, 8, 13, 40]), extra=R.choice([0, 0, 1, 3]))
    # (one formatted generator at a time: the header's type is a setting of the library, not of the generator)
    ev = []
    jobs = []
    for _ in range(c.n(60, 500)):
        sc, meta = ["nfds"], [{"e": "begin"}]
        for part in range(R.choice([1, 2, 3])):
            p, F, f = mk()
            n = len(F)
            if part:
                sc += ["file %s" % p, "gseed 0 %d" % R.randint(1, 2 ** 32 - 1)]
                meta += [None, {"e": "reopen", "g": 0, "F": F}]
            else:
                sc += ["file %s" % p, "gnew 0 %d" % GEN]
                meta += [None, {"e": "open", "g": 0, "F": F, "f": f}]
            for _ in range(R.randint(3, 14)):
                a = R.choice(["get"] * 4 + ["seed", "stat", "fds"])
                if a == "get":
                    sc.append("gget 0 %d" % max(1, R.choice([1, 1, n - 1, n, n + 1, 2 * n, 3 * n + 1, 7])))
                    meta.append({"e": "get", "g": 0})
                elif a == "seed":
                    k = R.choice([1, 1, 40])
                    for _ in range(k):
                        sc.append("gseed 0 %d" % R.randint(1, 2 ** 32 - 1))
                        meta.append({"e": "seed", "g": 0})
                elif a == "stat":
                    sc.append("fstat 0")
                    meta.append({"e": "stat", "g": 0})
                else:
                    sc.append("nfds")
                    meta.append({"e": "fds"})
            sc.append("nfds")
            meta.append({"e": "fds"})
        jobs.append((sc, meta))
    # many rewinds hold one file
    for t in ("d", "f", "b"):
        p, F, f = files.formatted(R, t, 2)
        jobs.append((["nfds", "file %s" % p, "gnew 0 %d" % GEN, "gget 0 3001", "nfds", "fstat 0"],
                     [{"e": "begin"}, None, {"e": "open", "g": 0, "F": F, "f": f}, {"e": "get", "g": 0}, {"e": "fds"}, {"e": "stat", "g": 0}]))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: lib(j[0], what="formatted file generator"), jobs))
    for (sc, meta), rows in zip(jobs, res):
        ev += p_c13.fill(sc, meta, rows)
    c.trace("TFileCursor", ev, "formatted file generator", ntraces=len(jobs))
    c.sample(ev[1:3])
    p_c13.corrupt(c, ev)
    # ---- the program
    jobs = []
    for i in range(c.n(40, 300)):
        t = TYPES[i % len(TYPES)]
        n = R.choice([1, 2, 7, 30])
        short = R.choice([0, 0, 0, 1]) if n > 2 else 0
        p, F, f = files.formatted(R, t, n, extra=0 if short else R.choice([0, 2]), short=short)
        if short:
            # exactly the listed numbers are read, then one more is asked for
            jobs.append((GEN, p, F, f, 0, 1, len(F) + R.choice([1, 2, 50]), 0, 5, True, False, n))
        else:
            jobs.append((GEN, p, F, f, R.choice([0, 2, 15, 100, 203]), R.choice([1, 2, 3, 7]),
                         R.choice([0, 1, n // 2, n - 1, n, n + 1, 3 * n]), R.randint(0, 1), R.choice([0, 1, 77, 4294967295])))
    for strat in (0, 1):
        p, F, f = files.formatted(R, R.choice(TYPES), R.randint(2, 50))
        jobs.append((GEN, p, F, f, 0, 0, R.choice([1, 7]), strat, 5, True, True))
    un = os.path.join(build.scratch(), "nowhere-%d" % c.seed)
    bad = [(un, {"kind": "formatted", "there": False, "dir": False, "h": []}),
           (build.scratch(), {"kind": "formatted", "there": True, "dir": True, "h": []})]
    kinds = set()
    for i in range(c.n(60, 300)):
        p, f, k = files.malformed(R, R.choice(TYPES))
        kinds.add(k)
        bad.append((p, f))
    for p, f in bad:
        jobs.append((GEN, p, None, f, R.choice([0, 15, 100]), 1, 3, R.randint(0, 1), R.choice([0, 9])))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: files.cli(*j), jobs))
    flat, pos = [], []
    for e, a in res:
        pos.append((len(flat), a))
        flat += e
    c.trace("TFileCursor", flat, "runs on a formatted file", ntraces=len(jobs),
            describe=lambda m: "command line: " + " ".join([a for o, a in pos if o <= m][-1]))
    c.cov["malformed_headers"] = sorted(kinds)
    c.sample(res[0][0][-2:])

