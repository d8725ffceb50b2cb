"""C21: chi-square and single-value evaluations."""
from math import erfc, log, sqrt

from scipy.special import gammaincc
from scipy.stats import binom, poisson

from .check import lib
from .p_c04 import dparts

ASSUMPTIONS = ["at least two cells enter the sum", "the chi-square and normal tail probabilities of the reference come from scipy (1e-7 accuracy asked)",
               "expectations are integers or halves for the pooling evaluation"]
E9 = 10 ** 9


def Q(ndof, chi):
    return float(gammaincc(ndof / 2.0, chi / 2.0))


def run(c):
    R = c.rnd
    m = "SPECIFICATION Spec\nINVARIANTS Conserved OrderFree Idempotent Enough Zero\nCONSTANTS N = %d\nX = {%s}\nY = {%s}\nCut = %d\nLoseTail = %s\n"
    c.model("MBinned", m % (3, "0,1,5", "1,3,5,7", 5, "FALSE"), min_states=100)
    c.model("MBinned", m % (c.n(3, 4), "0,4", "1,2,4,6", 4, "FALSE"), min_states=100)
    c.model_fails("MBinned", m % (3, "0,1,5", "1,3,5,7", 5, "TRUE"))
    sc, recs = [], []

    def ps(r, p, q):
        r.update(bits=dparts(p), p=int(round(p * E9)) if abs(p) <= 2 else 2 * E9, q=int(round(q * E9)))
    L = 55440
    div = [d for d in range(1, 121) if L % d == 0]
    # Vtest
    for _ in range(c.n(900, 9000)):
        n = R.choice([2, 3, 4, 5, 8, 13, 20, 33])
        cut = R.choice([-1, -1, -1, 0, 1, 5, 10, 20, 30])
        cv = 5 if cut < 0 else cut
        pool = R.choice([div[:9], div[:20], [d for d in div if d >= cv], [cv, max(1, cv - 1), cv + 1], div])
        y = [max(1, R.choice(pool)) for _ in range(n)]
        x = [max(0, R.choice([v, v + R.randint(-9, 9), R.randint(0, 2 * v), 0])) for v in y]
        imp = R.choice([0, 0, 0, R.randint(1, 40)])
        weak = [j for j in range(n) if y[j] < cv]
        used = [[x[j], y[j]] for j in range(n) if y[j] >= cv]
        if weak and sum(y[j] for j in weak) >= cv:
            used.append([sum(x[j] for j in weak), sum(y[j] for j in weak)])
        if len(used) < 2:
            continue
        chi = sum((a - b) ** 2 / float(b) for a, b in used)
        if chi > 1800:
            continue
        nd = imp or len(used) - 1
        ok = all(L % b == 0 for a, b in used) and chi * L < 2 ** 31
        r = {"f": "vtest", "x": x, "y": y, "cut": cv, "imposed": imp, "used": used, "ndof": nd, "chiref": int(round(chi * 1e6)),
             "L": L if ok else 0, "exact": int(round(chi * L)) if ok else 0}
        sc.append("vtest %d %d %d %s %s" % (n, cut, imp, " ".join(map(str, x)), " ".join(map(str, y))))
        recs.append((r, lambda o, r=r, q=Q(nd, chi): (r.update(gotndof=o["ndof"], chi=int(round(min(o["chisq"], 2000) * 1e6))), ps(r, o["p"], q))))
    # one value
    for _ in range(c.n(300, 3000)):
        sg = R.choice([1, 2, 4, 5, 8, 10, 50, 125, 1000])
        y = R.randint(-2000, 200000)
        x = y + R.choice([0, R.randint(-6 * sg, 6 * sg), R.randint(-40 * sg, 40 * sg)])
        z = (y - x) * 1000 // sg
        r = {"f": "xtest", "x": x, "y": y, "sigma": sg, "z": z}
        sc.append("xtest %d %d %d" % (x, y, sg))
        recs.append((r, lambda o, r=r, q=.5 * erfc(-z / 1000.0 / sqrt(2)): ps(r, o["p"], q)))
    # the other chi-square evaluations
    for _ in range(c.n(200, 2000)):
        n = R.choice([2, 3, 5, 9, 20, 64])
        e = [R.randint(1, 60) for _ in range(n)]
        x = [max(0, v + R.randint(-8, 8)) for v in e]
        r = {"f": "pearson", "x": x, "y": e, "used": [[a, b] for a, b in zip(x, e)], "df": n - 1}
        sc.append("chisq pearson %d 0 0 %s %s" % (n, " ".join(map(str, x)), " ".join(map(str, e))))
        recs.append((r, lambda o, r=r, q=Q(n - 1, sum((a - b) ** 2 / float(b) for a, b in zip(x, e))): ps(r, o["p"], q)))
        n = R.choice([2, 3, 4, 6, 8])
        ns = R.choice([50, 200, 1000])
        for kind, a, pdf in (("poisson", R.choice([.5, 2.0, 3.25]), lambda k, a: poisson.pmf(k, a)),):
            e = [ns * float(pdf(k, a)) for k in range(n)]
            x = [max(0, int(round(v)) + R.randint(-5, 5)) for v in e]
            r = {"f": kind, "x": x, "df": n - 1}
            sc.append("chisq %s %d %r %d %s" % (kind, n, a, ns, " ".join(map(str, x))))
            recs.append((r, lambda o, r=r, q=Q(n - 1, sum((u - v) ** 2 / v for u, v in zip(x, e))): ps(r, o["p"], q)))
        n = R.choice([2, 4, 8, 16])
        e = [ns * float(binom.pmf(k, n, .5)) for k in range(n + 1)]
        x = [max(0, int(round(v)) + R.randint(-5, 5)) for v in e]
        x[n // 2] += 11
        x[n // 2 - 1] += 11
        if R.random() < .3:
            x[R.randrange(n + 1)] = R.choice([10, 11])
        us = [k for k in range(n + 1) if x[k] > 10]
        if len(us) > 1:
            r = {"f": "binomial", "x": x, "cells": us, "df": len(us) - 1}
            sc.append("chisq binomial %d 0.5 %d %s" % (n, ns, " ".join(map(str, x))))
            recs.append((r, lambda o, r=r, q=Q(len(us) - 1, sum((x[k] - e[k]) ** 2 / e[k] for k in us)): ps(r, o["p"], q)))
        n = R.choice([2, 3, 8, 32])
        x = [R.choice([0, R.randint(0, 40), R.randint(10, 20)]) for _ in range(n)]
        x[0] += 1
        N = sum(x)
        g = sum(2 * v * log(v * n / float(N)) for v in x if v) / (1 + (n + 1) / (6.0 * N) + n * n / (6.0 * N * N))
        r = {"f": "gtest", "x": x, "df": n - 1}
        sc.append("chisq gtest %d 0 %d %s" % (n, N, " ".join(map(str, x))))
        recs.append((r, lambda o, r=r, q=Q(n - 1, abs(g)): ps(r, o["p"], q)))
    for (r, f), o in zip(recs, lib(sc)):
        f(o)
    recs = [r for r, f in recs]
    c.cases("TBinned", recs, "evaluation", parts=6)
    c.cov["evaluations"] = len(recs)
    c.sample(recs[0])
    v = [r for r in recs if r["f"] == "vtest" and r["L"]][0]
    for k in ("p", "gotndof", "chi", "exact"):
        b = dict(v)
        b[k] += 1000 if k in ("p",) else 10 + b["chiref"] // 1000 if k == "chi" else 1
        c.cases_rejected("TBinned", [b])
