"""C07: test selection and the all-tests schedule."""
from . import session

ASSUMPTIONS = ["the registered tests and their numbers are those of specs/TestTable.tla (dieharder -l)"]
NUMS = list(range(18)) + [100, 101, 102] + list(range(200, 212))


def run(c):
    c.model("MSession", "SPECIFICATION Spec\nINVARIANTS ScheduleFollowed NoRowsWhenRefused\n"
            "CONSTANTS\nTests <- SmallTests\nOne = 8\nRestart = FALSE\n", workers=6, min_states=50000)
    R = c.rnd
    jobs = []

    def job(**kw):
        cf = session.default()
        cf.update(**kw)
        jobs.append((cf, dict(pvals=[R.randint(0, 256) / 256. for _ in range(53)])))
    # every registered test, by number and by name, with and without a tuple size
    from .tables import NAMES
    for num in NUMS:
        job(d=num, p=R.randint(1, 2), n=0)
        job(d=num, p=1, n=R.randint(1, 40), strat=R.randint(0, 1), seed=R.choice(["0", "9"]))
        job(dn=NAMES[num], p=1, n=R.choice([0, R.randint(1, 40)]))
    # unknown tests
    for num in [-1, -7, 18, 19, 50, 99, 103, 199, 212, 255, 300, 600, 899, 900, 999, 1000, 1001, 5000, 2147483647]:
        job(d=num, p=1)
    for nm in ["nosuch", "diehard", "diehard_run", "diehard_runsx", "rgb_", "sts_serial2", "Diehard_runs", "x" * 100, "x" * 200]:
        job(dn=nm, p=1)
    # all tests
    for n in [0, 0, 1, 2, 3, 4, 5, 6, 7, 12, 13, 24, 31, 32, 33, 40, 1000] + [R.randint(1, 60) for _ in range(c.n(0, 40))]:
        job(all=True, mn=0, n=n, strat=R.randint(0, 1), seed=R.choice(["0", "3"]), y=R.choice([0, 0, 1]), off=R.choice([1, 2, 150]))
    # -a wins over sizes
    job(all=True, mn=0, p=3, t=77)
    allev, res = session.traces(c, jobs, ["sched"], "test schedule")
    c.sample({"argv": allev[-3][1], "rows": [e["name"] + "/" + str(e["nt"]) for e in allev[-3][0] if e["e"] == "row"][:60]})
    for (items, code, av), (cf, kw) in zip(res, jobs):
        if code not in (0, 1):
            from .check import Violation
            raise Violation("dieharder %s ends with status %d" % (" ".join(av), code), {"argv": av})
    import copy
    ev = allev[[i for i, j in enumerate(jobs) if j[0]["all"]][0]][0]
    rows = [i for i, e in enumerate(ev) if e["e"] == "run"]
    bad = copy.deepcopy(ev)
    bad[rows[40]]["nt"] += 1
    c.trace_rejected("TSession", bad, consts=session.consts(["sched"]))
    bad = copy.deepcopy(ev)
    bad[rows[5]]["t"] += 1
    c.trace_rejected("TSession", bad, consts=session.consts(["sched"]))
