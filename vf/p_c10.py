"""C10: the assessment is a function of the p-value and the two thresholds."""
import copy
from . import session

ASSUMPTIONS = ["p-values are judged at the printed precision (8 decimals); thresholds at multiples of 1/256 or their defaults"]


def run(c):
    c.model("MAssess", "SPECIFICATION Spec\nINVARIANT Laws\nCONSTANTS\nTests <- NoTests\nOne = 64\n", min_states=100)
    R = c.rnd
    jobs = []

    def job(pv, **kw):
        cf = session.default()
        cf.update(**kw)
        jobs.append((cf, dict(pvals=pv)))
    # default thresholds, both sides, a unit of the last place apart
    edge = [0, 1e-8, 9.8e-7, 9.9e-7, 1.01e-6, 1.02e-6, 0.00499999, 0.00500001, 0.005, 0.3, 0.5, 0.99499999, 0.99500001, 0.9951,
            0.99999898, 0.99999899, 0.99999901, 0.99999902, 0.99999999, 1.0]
    for x in edge:
        job([x], d=R.choice([0, 12, 100, 210]), p=1, y=R.choice([0, 1, 2]), off=1)
    th = [(0, 0), (0, 1), (1, 2), (2, 1), (13, 13), (64, 100), (100, 64), (127, 128), (128, 128), (0, 128), (None, 30), (40, None), (130, 140), (1, 200)]
    for fail, weak in th:
        f, w = fail or 0, weak or 0
        grid = sorted({x for b in (f, w, 256 - f, 256 - w, 0, 128, 256) for x in (b - 1, b, b + 1) if 0 <= x <= 256})
        for t, n in ((0, 1), (16, 2), (102, 30)):
            for rep in range(c.n(2, 12)):
                k = max(1, len(grid) // n)
                R.shuffle(grid)
                if n == 1:
                    for g in grid[:c.n(7, 99)]:
                        job([g / 256.], d=t, p=1, fail=fail, weak=weak, y=R.choice([0, 0, 1, 2]), off=1)
                else:
                    job([R.choice(grid) / 256. for _ in range(n)], d=t, p=1, fail=fail, weak=weak, strat=R.randint(0, 1))
    # final p-values of larger sets
    for i in range(c.n(20, 200)):
        job([R.randint(0, 256) / 256. for _ in range(101)], d=R.choice([5, 15, 201]), p=R.choice([2, 5, 30]), fail=R.choice([1, 10, 60]), weak=R.choice([20, 90]))
    for i in range(c.n(2, 10)):
        job([R.choice([0, 1, 2, 128, 254, 255, 256, 256]) / 256. for _ in range(999)], all=True, mn=0, fail=R.choice([1, 2]), weak=R.choice([2, 3]))
    allev, res = session.traces(c, jobs, ["assess", "ks"], "assessment", ks=True, parts=7)
    kinds = {}
    for ev, av in allev:
        for e in ev:
            if e["e"] == "row":
                kinds[e["a"]] = kinds.get(e["a"], 0) + 1
    c.cov["assessments_seen"] = kinds
    c.sample({"argv": allev[30][1], "row": [e for e in allev[30][0] if e["e"] == "row"]})
    for ev, av in allev[:3]:
        bad = copy.deepcopy(ev)
        r = [e for e in bad if e["e"] == "row"][0]
        r["a"] = {"FAILED": "WEAK", "WEAK": "PASSED", "PASSED": "FAILED"}.get(r["a"], "PASSED")
        c.trace_rejected("TSession", bad, consts=session.consts(["assess"]))
