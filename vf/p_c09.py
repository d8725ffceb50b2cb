"""C09: resolve-ambiguity and test-to-destruction stop exactly when they should."""
import copy
from . import session

ASSUMPTIONS = ["p-values and thresholds are multiples of 1/256 where equality matters (exact in binary and in the printed 8 decimals)"]
MODEL = """SPECIFICATION Spec
INVARIANTS LimitKept PassesMatch OneRoundWithoutMode ScheduleFollowed
PROPERTY Terminates
CONSTANTS
Tests <- SmallTests
One = 8
Restart = %s
"""


def demo(c):
    """The listed finding: a first p-value of exactly 0 and no failure threshold."""
    import subprocess
    from . import build
    pv = build.scratch() + "/zero"
    open(pv, "w").write("0\n")
    a = "%s -D %d -c '|' -d 0 -p 1 -Y 2 -X 0 -P 150" % (build.shim_cli(), session.FLAGS)
    out = subprocess.run(["bash", "-c", "timeout 5 %s | head -c 400000" % a], stdout=subprocess.PIPE, text=True, cwd=build.scratch(),
                         env=dict(__import__("os").environ, VT_STUB="1", VT_PVALS=pv, VT_EV="1")).stdout
    ps = [int(l.split("|")[5]) for l in out.split("\n")[:-1] if l.startswith("2|") and l.count("|") >= 7]
    if ps[:4] == [1, 1, 1, 1]:
        c.finding("zero-restart", True)
    elif ps != [1, 101, 150]:
        from .check import Violation
        raise Violation("passes %r instead of 1, 101, 150 for all-zero p-values" % ps[:9], {"cmd": a, "ps": ps[:20]})


def run(c):
    c.model("MSession", MODEL % "FALSE", workers=6, min_states=50000)
    c.model_fails("MSession", MODEL % "TRUE", workers=6)
    R = c.rnd
    jobs = []

    demo(c)

    def job(pv, **kw):
        if kw["fail"] == 0 and kw["p"] == 1 and pv[0] == 0:
            pv = [1] + pv[1:]       # exactly zero: listed finding zero-restart
        if kw["fail"] == 0 and len(pv) == 1 and kw["off"] > 250:
            kw["off"] = 250         # the final p-value would underflow to exactly zero
        cf = session.default()
        cf.update(**kw)
        jobs.append((cf, dict(pvals=[x / 256. for x in pv])))
    # the first decision, on exact boundary values (one pass: the p-value is the pass's own)
    for y in (0, 1, 2, 3):
        for fail, weak in [(0, 8), (3, 20), (13, 13), (20, 5), (1, 0), (0, 0), (5, 128)]:
            grid = sorted({x for b in (fail, weak, 256 - fail, 256 - weak, 0, 128, 256) for x in (b - 1, b, b + 1) if 0 <= x <= 256})
            for g in R.sample(grid, min(len(grid), c.n(3, 20))):
                job([g] + [R.randint(0, 256) for _ in range(60)], d=R.choice([0, 13, 204]), p=1, y=y, fail=fail, weak=weak,
                    off=R.choice([1, 2, 50, 101]))
    # two and more statistics: the smallest decides
    for i in range(c.n(24, 200)):
        fail, weak = R.choice([(2, 20), (0, 30), (10, 64), (64, 127)])
        t = R.choice([15, 16, 17, 207, 208, 211, 102])
        n = {102: 30}.get(t, 2)
        first = [R.choice([128, 100, weak, weak + 1, 256 - weak]) for _ in range(n)]
        first[R.randrange(n)] = R.choice([fail - 1 if fail else 0, fail, weak - 1, weak, 255, 256 - weak + 1, 256 - fail, 128])
        job(first + [R.randint(0, 256) for _ in range(n * 40)], d=t, p=1, y=R.choice([1, 2]), fail=fail, weak=weak,
            off=R.choice([1, 2, 30, 101, 120] if t != 102 else [1, 2, 9]))
    # many rounds
    for i in range(c.n(40, 400)):
        shape = R.choice(["zero", "one", "uniform", "half", "skew", "skew"])
        pv = {"zero": [0], "one": [256], "half": [128], "uniform": list(range(0, 257)),
              "skew": [R.choice([R.randint(0, 256), R.randint(60, 256)]) for _ in range(397)]}[shape]
        if shape == "uniform":
            R.shuffle(pv)
        job(pv, d=R.choice([0, 14, 16, 200]), n=R.randint(0, 3), p=R.choice([1, 2, 40, 99, 100, 150]), y=R.choice([1, 2, 2]),
            fail=R.choice([0, 0, 1]), weak=R.choice([1, 40, 128]), off=R.choice([100, 101, 199, 200, 250, 301, 430]))
    # the limit when none is given
    jobs.append((dict(session.default(), d=0, p=99950, y=2, fail=0, weak=1), dict(pvals=[x / 256. for x in range(257)])))
    # all tests, resolving
    for i in range(c.n(1, 6)):
        job([R.choice([R.randint(0, 256), 2]) for _ in range(701)], all=True, mn=0, p=0, y=R.choice([1, 2]), fail=1, weak=20, off=R.choice([3, 20]))
    allev, res = session.traces(c, jobs, ["sizes"], "stopping", parts=7)
    c.sample({"argv": allev[-2][1], "rows": [[e["ps"], e["p"]] for e in allev[-2][0] if e["e"] == "row"]})
    rounds = [sum(1 for e in ev if e["e"] == "row" and e["p"] >= 0) for ev, _ in allev]
    c.add("sessions_with_more_than_one_round", sum(1 for r in rounds if r > 1))
    for ev, av in allev:   # dropping the last round must be rejected
        rows = [i for i, e in enumerate(ev) if e["e"] == "row"]
        if ev[0]["c"]["y"] and not ev[0]["c"]["all"] and len(rows) > 2 and ev[0]["c"]["d"] in (0, 14, 200):
            bad = copy.deepcopy(ev[:rows[-2] + 1] + [ev[-1]])
            c.trace_rejected("TSession", bad, consts=session.consts(["sizes"]))
            break
