"""C18: the combining generator."""
import copy
from concurrent.futures import ThreadPoolExecutor

from . import build, files, gens, session
from .check import lib, run_cmd

ASSUMPTIONS = ["the components' own streams are taken from the library (C03, C25 decide them)"]
N = 40


def streams(comps, seed, n=N):
    """Every component's stream for a seed of the combination."""
    sd = lib(["gnew 0 14", "gseed 0 %d" % seed, "gget 0 %d" % len(comps)])[2]["r"]
    sc = []
    for g, s in zip(comps, sd):
        sc += ["gnew 0 %d" % g["num"], "gseed 0 %d" % s, "gget 0 %d" % n]
    r = lib(sc)
    return [[files.hl(x) for x in r[3 * i + 2]["r"]] for i in range(len(comps))]


def library(args):
    comps, plan = args
    sc = ["xor %d 207 %s" % (len(comps) + 1, " ".join(str(g["num"]) for g in comps)), "gnew 0 207"]
    meta = [None, None]
    for k, s in plan:
        sc.append("gseed 0 %d" % s if k == "seed" else ("guni 0 %d" if k == "uni" else "gget 0 %d") % s)
        meta.append((k, s))
    rows = lib(sc, what="XOR of " + " ".join(g["name"] for g in comps))
    ev = []
    for m, r in zip(meta, rows):
        if m is None:
            continue
        if m[0] == "seed":
            ev.append({"e": "seed", "S": streams(comps, m[1])})
        else:
            ev.append({"e": "get", "v": [files.hl(x if m[0] == "get" else int(round(x * 0xffffffff))) for x in r["r"]]})
    return ev, sc[0]


def cli_args(R, comps):
    a = ["-g", R.choice(["207", "XOR (supergenerator)"])]
    for g in comps:
        a += ["-g", R.choice([str(g["num"]), g["name"]])]
    return a


def dump(args):
    comps, a, seed, n = args
    cmd = [build.cli(), "-o", "-O", "1", "-t", str(n), "-S", str(seed)] + a
    p = run_cmd(cmd, what="dieharder " + " ".join(cmd[1:]))
    v = [files.hl(int(x)) for x in p.stdout.split("\n") if x.strip().isdigit()]
    ev = [{"e": "seed", "S": streams(comps, seed)}, {"e": "get", "v": v}]
    if len(v) != n:
        ev.append({"e": "wrong number of values"})
    return ev, " ".join(cmd[1:])


def sess(args):
    """A whole session: seedings and words in order."""
    comps, a, seed, strat, k = args
    cmd = [build.shim_cli(), "-D", str(session.FLAGS), "-c", "|", "-d", "15", "-p", "3", "-S", str(seed), "-s", str(strat)] + a
    p = run_cmd(cmd, env={"VT_EV": "1", "VT_STUB": "1", "VT_RAW": str(k)}, what="dieharder " + " ".join(cmd[1:]))
    ev = []
    for it in session.parse(p.stdout):
        if it["e"] == "set" and it["s"] != "0":
            ev.append({"e": "seed", "S": streams(comps, int(it["s"]))})
        elif it["e"] == "run":
            ev.append({"e": "get", "v": [files.hl(x) for x in it["r"]]})
    return ev, " ".join(cmd[1:])


def refuse(args):
    a, comps, unknown = args
    cmd = [build.shim_cli(), "-D", str(session.FLAGS), "-c", "|", "-d", "15", "-p", "1", "-S", "3"] + a
    p = run_cmd(cmd, env={"VT_EV": "1", "VT_STUB": "1", "VT_RAW": "2"}, what="dieharder " + " ".join(cmd[1:]))
    it = session.parse(p.stdout)
    return [{"e": "refused", "comps": comps, "unknown": unknown, "rows": len([i for i in it if i["e"] in ("row", "run")])}], " ".join(cmd[1:])


def run(c):
    R = c.rnd
    m = "SPECIFICATION Spec\nINVARIANT Together\nPROPERTY IsXor\nCONSTANTS Len1 = %d\nVariant = \"%s\"\n"
    c.model("MXor", m % (c.n(2, 3), "none"), min_states=500)
    for v in ("twice", "keep"):
        c.model_fails("MXor", m % (2, v))
    soft = gens.software()
    heavy = {"superkiss"}
    soft = [g for g in soft if g["name"] not in heavy] + [g for g in soft if g["name"] in heavy]

    def pick(n):
        return [R.choice(soft[:-1] if R.random() < .9 else soft) for _ in range(n)]
    jobs = []
    for i in range(c.n(50, 400)):
        comps = pick(R.choice([1, 2, 2, 3, 4, 7]))
        if R.random() < .2:
            comps = [comps[0]] * R.choice([2, 3])
        plan, left = [("seed", R.randint(1, 2 ** 32 - 1))], N
        for _ in range(R.randint(2, 6)):
            if R.random() < .3:
                plan.append(("seed", R.choice([plan[0][1], R.randint(1, 2 ** 32 - 1)])))
                left = N
            else:
                k = R.choice([1, 2, 5, 9])
                if k <= left:
                    plan.append((R.choice(["get", "get", "uni"]), k))
                    left -= k
        jobs.append((library, (comps, plan)))
    jobs.append((library, (pick(99), [("seed", 5), ("get", 10), ("seed", 5), ("get", 3)])))
    # reseeding again and again holds on to nothing
    jobs.append((library, (pick(3), [("seed", 5 + i) for i in range(10)] + [("get", 3)])))
    for i in range(c.n(40, 300)):
        comps = pick(R.choice([1, 2, 3, 5]))
        jobs.append((dump, (comps, cli_args(R, comps), R.randint(1, 2 ** 32 - 1), R.choice([1, 7, 30]))))
    for i in range(c.n(12, 100)):
        comps = pick(R.choice([1, 2, 3]))
        jobs.append((sess, (comps, cli_args(R, comps), R.randint(1, 2 ** 32 - 1), i % 2, 7)))
    for x in ("207", "XOR (supergenerator)"):
        jobs.append((refuse, (["-g", x], 0, False)))
        for y in ("999", "1000", "nosuch", "100000", "mt", "-5"):
            jobs.append((refuse, (["-g", x, "-g", y], 1, True)))
            jobs.append((refuse, (["-g", x, "-g", "13", "-g", y], 2, True)))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: j[0](j[1]), jobs))
    parts = [res[i::6] for i in range(6)]

    def val(part):
        flat, pos = [], []
        for e, a in part:
            pos.append((len(flat), a))
            flat += e
        c.trace("TXor", flat, "combined generators", ntraces=len(part), describe=lambda m: [a for o, a in pos if o <= m][-1])
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(val, parts))
    c.cov["components_used"] = len({g["name"] for f, a in jobs if f is not refuse for g in a[0]})
    e = [e for e, a in res if len(e) > 1 and len(e[0]["S"]) > 1 and e[1]["e"] == "get"][0]
    c.sample({"v": e[1]["v"][:2], "S": [s[:2] for s in e[0]["S"]]})
    bad = copy.deepcopy(e)
    bad[1]["v"][0][1] ^= 1
    c.trace_rejected("TXor", bad)
    bad = copy.deepcopy(e)
    bad[0]["S"][0] = bad[0]["S"][0][1:]
    c.trace_rejected("TXor", bad)
