"""C11: sample sizes."""
import copy
from . import session
from .tables import NAMES

ASSUMPTIONS = ["multipliers are dyadic fractions (exact)", "standard sizes are those of specs/TestTable.tla"]


def run(c):
    c.model("MSession", "SPECIFICATION Spec\nINVARIANTS LimitKept PassesMatch\n"
            "CONSTANTS\nTests <- SmallTests\nOne = 8\nRestart = FALSE\n", workers=6, min_states=50000)
    R = c.rnd
    jobs = []

    def job(extra=(), **kw):
        cf = session.default()
        cf.update(**kw)
        jobs.append((cf, dict(pvals=[R.randint(30, 220) / 256. for _ in range(53)], extra=extra)))
    nums = sorted(NAMES)
    for num in nums:     # every test: standard, requested
        small = num == 102
        job(d=num, t=0, p=0, mn=R.choice([0, 1, 1, 2]) if num not in (201, 204) else 0)
        job(d=num, t=R.choice([1, 7, 1000, 2147483647, R.randint(1, 99999)]), p=R.choice([1, 2, 5] if small else [1, 2, 5, 30]), mn=R.choice([0, 8, 16]))
    for i in range(c.n(40, 400)):
        num = R.choice([0, 2, 10, 13, 15, 100, 200, 205, 206, 209])
        kw = dict(t=R.choice([0, R.randint(1, 10 ** 6)]), p=R.choice([0, R.randint(1, 140)]), mn=R.choice([8, 0, 1, 3, 5, 12]),
                  off=R.choice([100000, 1, 2, 10, 99, 100, 101, 120]), y=R.choice([0, 0, 1, 2]), fail=R.choice([None, 0]), weak=R.choice([None, 2]))
        if kw["y"] and kw["fail"] == 0 and kw["off"] == 100000:     # rightly goes on to the limit, which takes minutes (C09 has that)
            kw["off"] = 250
        job(d=num, **kw)
    for mn in [0, 0, 1, 2, 8] if not c.thorough else [0, 1, 2, 3, 4, 8, 12]:
        job(all=True, mn=mn, t=R.choice([0, 555]), p=R.choice([0, 3]), off=R.choice([100000, 1, 5, 9]) if mn > 1 else 100000, strat=R.randint(0, 1))
    for num in (0, 15, 205):   # a negative number of samples is refused in favour of the standard
        job(d=num, p=1, extra=("-t", "-5"))
    job(d=205, t=2, p=R.randint(12000, 20000))     # many passes, no limit given
    job(d=201, mn=2)
    job(d=204, mn=1)
    allev, res = session.traces(c, jobs, ["sizes"], "sample sizes", parts=7)
    c.sample({"argv": allev[5][1], "rows": [[e["name"], e["ts"], e["ps"]] for e in allev[5][0] if e["e"] == "row"]})
    ev = allev[1][0]
    for f in ("ts", "ps"):
        bad = copy.deepcopy(ev)
        [e for e in bad if e["e"] == "row"][0][f] += 1
        c.trace_rejected("TSession", bad, consts=session.consts(["sizes"]))
