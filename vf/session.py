"""Sessions: the real program, its test functions replaced by scripted ones at
their registration, turned into traces of Session (specs/TSession.tla)."""
import json
import os
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import build, check

ONE = 100000000
FLAGS = 2 + 8 + 16 + 32 + 64 + 128 + 256 + 512 + 4096 + 16384 + 32768


def num(x):
    """x/256 as an option value (exact)."""
    return "%.8f" % (x / 256.0)


def default():
    return dict(all=False, d=-1, dn="", n=0, t=0, p=0, mn=8, md=8, y=0, fail=None, weak=None, off=100000,
                step=100, seed="0", strat=0)


def argv(cf, extra=()):
    """Command line of a configuration; fail/weak are in 1/256, None = default."""
    a = []
    if cf["all"]:
        a.append("-a")
    elif cf["dn"]:
        a += ["-d", cf["dn"]]
    else:
        a += ["-d", str(cf["d"])]
    for k, o in (("n", "-n"), ("t", "-t"), ("p", "-p"), ("y", "-Y"), ("strat", "-s")):
        if cf[k]:
            a += [o, str(cf[k])]
    if cf["mn"] != cf["md"]:
        a += ["-m", repr(cf["mn"] / float(cf["md"]))]
    if cf["off"] != 100000:
        a += ["-P", str(cf["off"])]
    if cf["seed"] != "0":
        a += ["-S", cf["seed"]]
    if cf["fail"] is not None:
        a += ["-X", num(cf["fail"])]
    if cf["weak"] is not None:
        a += ["-W", num(cf["weak"])]
    return a + list(extra)


def model_cfg(cf):
    m = dict(cf)
    m["fail"] = 100 if cf["fail"] is None else cf["fail"] * (ONE // 256)
    m["weak"] = 500000 if cf["weak"] is None else cf["weak"] * (ONE // 256)
    return m


def run(cf, pvals=None, gen=None, gens=None, env=None, extra=(), flags=FLAGS, stub=True, timeout=60):
    """Run one session; (raw list of items, exit code, argv)."""
    e = {"VT_EV": "1"}
    tmp = None
    if stub:
        e["VT_STUB"] = "1"
    if pvals is not None:
        fd, tmp = tempfile.mkstemp(prefix="pv-", dir=build.scratch())
        os.write(fd, "\n".join(repr(float(x)) for x in pvals).encode())
        os.close(fd)
        e["VT_PVALS"] = tmp
    if gens:
        e["VT_GENS"] = gens
    e.update(env or {})
    a = [build.shim_cli(), "-D", str(flags), "-c", "|"]
    if gen is not None:
        a += ["-g", str(gen)]
    a += argv(cf, extra)
    try:
        p = check.run_cmd(a, env=e, timeout=timeout, what="dieharder " + " ".join(a[1:]))
    finally:
        if tmp:
            os.unlink(tmp)
    return parse(p.stdout), p.returncode, a[1:]


def parse(txt):
    items = []
    for ln in txt.split("\n"):
        if not ln:
            continue
        if ln.startswith("\x01"):
            items.append(json.loads(ln[1:]))
        elif ln.startswith("2|"):
            f = ln.split("|")
            items.append({"e": "row", "f": f[1:]})
        elif ln.startswith("1|"):
            items.append({"e": "rng", "f": ln.split("|")[1:]})
        elif ln.startswith("0|") or ln.startswith("#") or ln.startswith("Preparing to run test"):
            continue
        else:
            items.append({"e": "text", "s": ln})
    return items


def scaled(s):
    return int(round(float(s) * ONE))


def events(cf, items, code, kps=True):
    """Trace events of one session, plus the list of KS questions it raises."""
    ev = [{"e": "cfg", "c": model_cfg(cf)}]
    acc, k, asks = None, 0, []
    for it in items:
        if it["e"] in ("reg", "text"):
            continue
        if it["e"] == "set":
            ev.append({"e": "set", "s": it["s"]})
        elif it["e"] == "run":
            if it["i"] == 0 or acc is None or len(acc) != len(it["p"]):
                acc = [[] for _ in it["p"]]
            for q, x in zip(acc, it["p"]):
                q.append(x)
            k = 0
            ev.append({"e": "run", "t": it["t"], "i": it["i"], "nt": it["nt"], "ts": it["ts"]})
        elif it["e"] == "rng":
            f = it["f"]
            ev.append({"e": "rng", "s": f[2] if len(f) > 2 else ""})
        elif it["e"] == "row":
            f = it["f"]
            r = {"e": "row", "name": f[0], "num": int(f[1]), "nt": int(f[2]), "ts": int(f[3]), "ps": int(f[4]),
                 "p": scaled(f[5]), "a": f[6], "s": f[7] if len(f) > 7 else "", "kp": -5, "cnt": 0}
            if acc and k < len(acc):
                r["cnt"] = len(acc[k])
                if kps:
                    asks.append((r, list(acc[k])))
            k += 1
            ev.append(r)
    ev.append({"e": "exit", "code": code})
    return ev, asks


def ask_ks(asks, kind=0):
    if not asks:
        return
    rows = check.lib(["ks %d %d %s" % (kind, len(v), " ".join(v)) for _, v in asks])
    for (r, _), o in zip(asks, rows):
        r["kp"] = int(round(o["p"] * ONE))


def traces(c, jobs, aspects, what, ks=False, parts=6, invs=("Safe",)):
    """jobs: list of (cf, kwargs of run). Run all, validate against TSession."""
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: run(j[0], **j[1]), jobs))
    allev = []
    for (cf, kw), (items, code, av) in zip(jobs, res):
        ev, asks = events(cf, items, code, kps=ks)
        if ks:
            ask_ks(asks)
        allev.append((ev, av))
    validate(c, allev, aspects, what, parts, invs)
    return allev, res


def consts(aspects):
    return "Tests <- Table\nOne = %d\nAspects = {%s}" % (ONE, ",".join('"%s"' % a for a in aspects))


def validate(c, allev, aspects, what, parts=6, invs=("Safe",)):
    parts = max(1, min(parts, len(allev)))
    groups = [[] for _ in range(parts)]
    size = [0] * parts
    for x in sorted(allev, key=lambda x: -len(x[0])):
        g = size.index(min(size))
        groups[g].append(x)
        size[g] += len(x[0])

    def one(g):
        flat, pos = [], []
        for ev, av in g:
            pos.append((len(flat), av))
            flat += ev
        c.trace("TSession", flat, what, ntraces=len(g), consts=consts(aspects), invs=invs,
                describe=lambda m: "command line: dieharder " + " ".join([a for o, a in pos if o <= m][-1]))
    with ThreadPoolExecutor(parts) as ex:
        list(ex.map(one, groups))
