"""C06: seeding policy."""
from . import session

ASSUMPTIONS = ["the speed measurement (rate field) may seed the generator before the first test; "
               "what counts is the state the first test starts from"]


def model(c):
    return ("SPECIFICATION Spec\nINVARIANTS SeedKept ScheduleFollowed LimitKept PassesMatch\n"
            "CONSTANTS\nTests <- SmallTests\nOne = 8\nRestart = FALSE\n")


def run(c):
    c.model("MSession", model(c), workers=6, min_states=50000)
    R = c.rnd
    jobs = []
    gens = "x9:0:511,x32:0:4294967295"
    for strat in (0, 1):
        for seed in ["0", "1", "4294967295", "2147483648", str(R.getrandbits(31) + 5)]:
            for gen in [None, "x9", "R_wichmann_hill", "x32"] if c.thorough else [R.choice([None, "R_knuth_taocp", "kiss"]), R.choice(["x9", "x32"])]:
                for rate in (0, 8192):
                    cf = session.default()
                    if R.random() < 0.5:
                        cf.update(all=True, mn=0)
                    else:
                        cf.update(d=R.choice([0, 4, 15, 16, 102, 200, 207]), p=R.randint(1, 3), n=R.randint(0, 3), y=R.choice([0, 1, 2]), off=230)
                    cf.update(seed=seed, strat=strat)
                    jobs.append((cf, dict(gen=gen, gens=gens, pvals=[R.randint(0, 256) / 256. for _ in range(97)],
                                          flags=session.FLAGS + rate)))
    for seed in ("17", "4660", str(R.getrandbits(20) + 9)):     # leading zeros do not change a decimal number
        cf = dict(session.default(), d=15, p=2, seed=seed, strat=1)
        jobs.append((cf, dict(gens=gens, pvals=[.5, .25, .75], flags=session.FLAGS, extra=("-S", "00" + seed))))
    # the rate field is the column after the generator number
    allev, res = [], None
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: session.run(j[0], **j[1]), jobs))
    for (cf, kw), (items, code, av) in zip(jobs, res):
        for it in items:
            if it["e"] == "rng" and kw["flags"] & 8192:
                it["f"] = it["f"][:2] + it["f"][3:]
        ev, _ = session.events(cf, items, code, kps=False)
        allev.append((ev, av))
    c.sample({"argv": allev[3][1], "events": [e for e in allev[3][0] if e["e"] in ("set", "rng")]})
    session.validate(c, allev, ["seed"], "seeding")
    # unpredictable seeds: those of runs (and of tests of one run) without a seed option all differ
    cf = session.default()
    seeds = []
    for i in range(c.n(12, 60)):
        cf.update(d=0, p=1, strat=0)
        items, code, av = session.run(cf)
        seeds.append([it["s"] for it in items if it["e"] == "set"][-1])
    cf.update(all=True, d=-1, p=0, mn=0, strat=1)
    items, code, av = session.run(cf)
    per = [it["s"] for it in items if it["e"] == "set"][1:]
    c.cases("TSeeds", [{"seeds": seeds}, {"seeds": per}], "random seeds")
    c.cases_rejected("TSeeds", [{"seeds": seeds + seeds[:1]}])
    # binding
    import copy
    for ev, av in allev:
        k = [i for i, e in enumerate(ev) if e["e"] == "set"]
        if ev[0]["c"]["seed"] != "0" and ev[0]["c"]["strat"] and len(k) > 1:
            bad = copy.deepcopy(ev)
            bad[k[1]]["s"] = "17"
            c.trace_rejected("TSession", bad, consts=session.consts(["seed"]))
            bad = copy.deepcopy(ev)
            del bad[k[-1]]
            if len(k) > 2:
                c.trace_rejected("TSession", bad, consts=session.consts(["seed"]))
            break
