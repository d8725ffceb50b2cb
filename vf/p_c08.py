"""C08: every p-sample is computed once, kept, and all of them decide the final p-value."""
import copy
from . import session
from .check import lib

ASSUMPTIONS = ["the goodness-of-fit value of a set is taken from the same code (C20 decides that function)"]


def run(c):
    m = "SPECIFICATION Spec\nINVARIANTS Kept Limit Aligned\nCONSTANT RestartOnZero = %s\n"
    c.model("MTestObject", m % "FALSE", min_states=500)
    c.model_fails("MTestObject", m % "TRUE")
    R = c.rnd
    # ---- listed findings, by their own demonstrations
    r = lib(["opt 0 1 1 50 5 1 9 0", "tzero 1", "tnew 1 1 2 2", "tstd 1", "tstd 1", "tfree 1", "tzero 0"])
    c.finding("zero-restart", r[4]["runs"][:1] == [0] and r[4]["ps"] != [6])
    r = lib(["opt 0 0.125 1 50 5 0 9 0", "tnew 1 1 2 2", "tstd 1", "tclear 1", "tstd 1", "tfree 1"])
    c.finding("clear-zero", r[2]["ps"] == [1] and r[4]["ps"] == [0])
    # ---- library: interleaved test objects
    ev, nreal = [], 0
    for rep in range(c.n(25, 250)):
        o = dict(all=R.random() < .3, mn=R.choice([8, 8, 1, 0, 20]), off=R.choice([1, 3, 7, 30, 31]), step=R.choice([1, 2, 5, 9]),
                 p=R.choice([0, 0, 1, 2, 6, 40]), t=R.choice([0, 123]))
        kind = R.choice([0, 0, 0, 1, 2])
        script = ["opt %d %s 1 %d %d %d %d %d" % (o["all"], o["mn"] / 8., o["off"], o["step"], o["p"], o["t"], kind)]
        meta = [{"e": "opt", "o": o}]
        alive, std = {}, {}
        for _ in range(c.n(30, 60)):
            ids = list(alive)
            a = R.choice(["new", "std", "std", "std", "std", "clear", "free"])
            if a == "new" or not ids:
                free = [i for i in range(1, 5) if i not in alive]
                if not free:
                    continue
                i, nk, ps, ts = free[0], R.choice([1, 1, 2, 5]), R.choice([1, 2, 4, 11, 12]), R.randint(1, 999)
                alive[i], std[i] = nk, ps
                script.append("tnew %d %d %d %d" % (i, nk, ps, ts))
                meta.append({"e": "new", "id": i, "nk": nk, "ps": ps, "ts": ts})
            elif a == "std":
                i = R.choice(ids)
                script.append("tstd %d" % i)
                meta.append({"e": "std", "id": i, "nk": alive[i]})
            elif a == "clear":
                i = R.choice(ids)
                if (o["all"] or o["p"] == 0) and std[i] * o["mn"] < 8:
                    continue        # listed finding clear-zero
                script.append("tclear %d" % i)
                meta.append({"e": "clear", "id": i})
            else:
                i = R.choice(ids)
                del alive[i]
                script.append("tfree %d" % i)
                meta.append({"e": "free", "id": i})
        rows = lib(script, what="test objects")
        acc, asks = {}, []
        for e, r in zip(meta, rows):
            if e["e"] in ("new", "clear"):
                acc[e["id"]] = None
            if e["e"] == "std":
                nk, runs = e.pop("nk"), r["runs"]
                groups = [runs[k:k + 2 * nk] for k in range(0, len(runs), 2 * nk)]
                e.update(idx=[g[0] for g in groups], new=[g[1::2] for g in groups], ps=r["ps"], ts=r["ts"],
                         pv=[[int(round(x)) for x in v] for v in r["pv"]], ks=[int(round(x * 1e8)) for x in r["ks"]], kp=[])
                a = acc[e["id"]] if acc.get(e["id"]) else [[] for _ in range(nk)]
                for g in e["new"]:
                    for q, v in zip(a, g):
                        q.append(v)
                acc[e["id"]] = a
                for q in a:
                    asks.append((e, list(q)))
        ks = lib(["ks %d %d %s" % (kind, len(v), " ".join(repr(x / 256.) for x in v)) for _, v in asks])
        for (e, _), x in zip(asks, ks):
            e["kp"].append(int(round(x["p"] * 1e8)))
        ev += meta
        nreal += 1
    c.trace("TTestObject", ev, "test objects", ntraces=nreal)
    c.sample([e for e in ev if e["e"] == "std"][3])
    first = [i for i, e in enumerate(ev) if e["e"] == "std" and e["idx"]][0]
    for f in ("kp", "ps"):
        bad = copy.deepcopy(ev[:first + 1])
        bad[first][f][0] += 5
        c.trace_rejected("TTestObject", bad)
    # ---- the program: passes and final p-values of whole sessions
    jobs = []
    for i in range(c.n(60, 500)):
        cf = session.default()
        mode = R.choice([0, 0, 1, 2])
        t = R.choice([0, 3, 15, 17, 102, 200, 205, 208, 211])
        cf.update(d=t, p=R.choice([1, 2, 3, 7, 20, 99, 100, 101, 130]) if t != 102 else R.choice([1, 2, 5]), y=mode,
                  off=R.choice([100000, 60, 100, 150, 205]) if mode == 0 else R.choice([100, 101, 205, 260]), strat=R.randint(0, 1),
                  fail=R.choice([0, 1, 4]), weak=R.choice([8, 20, 64]))
        vals = [R.choice([R.randint(0, 256), R.randint(100, 160), 0]) / 256. for _ in range(211)]
        if cf["fail"] == 0:
            vals[:30] = [max(x, 1 / 256.) for x in vals[:30]]     # (listed finding zero-restart)
        jobs.append((cf, dict(pvals=vals)))
    for i in range(c.n(2, 8)):
        cf = session.default()
        cf.update(all=True, mn=R.choice([0, 1]), strat=R.randint(0, 1))
        jobs.append((cf, dict(pvals=[R.randint(0, 256) / 256. for _ in range(1009)])))
    allev, res = session.traces(c, jobs, ["ks", "sizes"], "passes and final p-values", ks=True, parts=7)
    k = [i for i, e in enumerate(allev[0][0]) if e["e"] == "row"][0]
    bad = copy.deepcopy(allev[0][0])
    bad[k]["kp"] += 3
    c.trace_rejected("TSession", bad, consts=session.consts(["ks"]))
    bad = [e for i, e in enumerate(allev[0][0]) if i != k - 2]
    c.trace_rejected("TSession", bad, consts=session.consts(["ks"]))
