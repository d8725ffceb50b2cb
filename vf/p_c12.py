"""C12: the report."""
import copy
import re
from concurrent.futures import ThreadPoolExecutor

from . import build, files, gens, session
from .check import lib, run_cmd

ASSUMPTIONS = ["padding is ignored except that no_whitespace must leave none", "p-values are multiples of 1/256",
               "the histogram's vertical scale may be any that keeps the bars within its 20 rows"]
NAMES = ["header", "show_rng", "line_header", "test_name", "ntuple", "tsamples", "psamples", "pvalues", "assessment",
         "prefix", "description", "histogram", "seed", "rate", "show_num", "no_whitespace", "psample_values", "file_rng_stat"]
ONE = session.ONE


def classify(s, sep):
    x = {"ws": False, "f": [""]}
    if re.match(r"#=+#$", s):
        x["t"] = "bar"
    elif s.startswith("#") and "dieharder version" in s:
        x["t"] = "version"
    elif s.startswith("#") and "Histogram of test p-values" in s:
        x["t"] = "htitle"
    elif s.startswith("#") and "Values of test p-values" in s:
        x["t"] = "vtitle"
    elif s.startswith("# The ") and (" rands " in s or "was rewound" in s):
        x["t"] = "fstat"
    elif s.startswith("# Bin scale = "):
        x.update(t="hscale", f=[s[14:].strip()])
    elif re.match(r"#       \|-+$", s):
        x["t"] = "hbase"
    elif re.match(r"#       \|( *\d\.\d\|)+$", s):
        x.update(t="haxis", f=[v.strip() for v in s[9:].split("|")[:-1]])
    elif re.match(r"#[ 0-9]*\|([* ]{4}\|)+$", s):
        v = s[1:].split("|")[:-1]
        x.update(t="hrow", f=[w.strip() for w in v])
    elif s.startswith("#"):
        x.update(t="com", f=[s])
    else:
        v = s.split(sep)
        x.update(t="tok", f=[w.strip() for w in v], ws=any(w != w.strip() for w in v))
    return x


def dargs(R, flags):
    """-D arguments for a set of flags, by name, number and sums, in any order."""
    fl = list(flags)
    R.shuffle(fl)
    out, i = [], 0
    while i < len(fl):
        k = R.choice([1, 1, 2, 5, len(fl)])
        part = fl[i:i + k]
        i += k
        if len(part) == 1 and R.random() < .7:
            out.append({"n": 0, "s": part[0]})
        else:
            out.append({"n": sum(1 << NAMES.index(f) for f in part), "s": ""})
    return out


DEFAULT = {"header", "show_rng", "line_header", "test_name", "ntuple", "tsamples", "psamples", "pvalues", "assessment", "seed", "rate"}


def one(job):
    cf, D, sep, g, file, pv, descs, byname = job
    import os
    import tempfile
    fd, tmp = tempfile.mkstemp(prefix="pv-", dir=build.scratch())
    os.write(fd, "\n".join(repr(x / 256.0) for x in pv).encode())
    os.close(fd)
    a = [build.shim_cli()]
    for d in D:
        a += ["-D", d["s"] or str(d["n"])]
    if sep != "|":
        a += ["-c", sep]
    a += ["-g", g["name"] if byname else str(g["num"])] + (["-f", file] if file else []) + session.argv(cf, ["-k", str(cf["k"])] if cf.get("k") else [])
    p = run_cmd(a, env={"VT_EV": "1", "VT_STUB": "1", "VT_PVALS": tmp}, what="dieharder " + " ".join(a[1:]))
    os.unlink(tmp)
    mc = session.model_cfg(cf)
    ev = [{"e": "cfg", "D": D, "strat": cf["strat"], "file": file or "", "gname": g["name"], "gnum": g["num"], "fail": mc["fail"], "weak": mc["weak"]}]
    names, asks, acc, text, num = {}, [], None, [], None

    def flush():
        nonlocal text
        if text:
            e = {"e": "text", "L": [], "kp": [], "vs": [], "d": []}
            dl = descs.get(str(num), "").split("\n")[:-1]
            L = [{"t": "com", "f": [s], "ws": False} if s and s in dl and not re.match(r"#=+#$", s) else classify(s, sep) for s in text]
            e["L"] = L
            for i in [k for k, x in enumerate(L) if x["t"] == "vtitle"]:
                j = i + 2
                while j < len(L) and L[j]["t"] == "tok":
                    j += 1
                L[i + 2:j] = sorted(L[i + 2:j], key=lambda x: (x["f"], x["ws"]))
            e["d"] = [classify(s, sep) if not s or re.match(r"#=+#$", s) else {"t": "com", "f": [s], "ws": False} for s in dl]
            # the scale each histogram shows: its lowest label is for row 2
            rows = [x["f"][0] for x in L if x["t"] == "hrow" and len(x["f"]) > 1 and x["f"][0].isdigit()]
            e["vs"] = [int(rows[i]) // 2 if i < len(rows) else 1 for i in range(9, 10 * len(acc or [1]), 10)]
            for q in acc or []:
                asks.append((e, list(q)))
            ev.append(e)
            text = []
    out = p.stdout.split("\n")
    if out and out[-1] == "":
        out.pop()
    for ln in out:
        if ln.startswith("\x01"):
            import json
            it = json.loads(ln[1:])
            if it["e"] == "reg":
                names = {t["num"]: t["name"] for t in it["t"]}
                continue
            flush()
            if it["e"] == "set":
                ev.append({"e": "set", "s": it["s"]})
            elif it["e"] == "run":
                if it["i"] == 0 or acc is None or len(acc) != len(it["p"]):
                    acc = [[] for _ in it["p"]]
                for q, x in zip(acc, it["p"]):
                    q.append(x)
                num = it["t"]
                ev.append({"e": "run", "t": it["t"], "i": it["i"], "nt": it["nt"], "ts": it["ts"], "name": names.get(it["t"], "?"),
                           "p": [int(round(float(x) * ONE)) for x in it["p"]]})
        elif ln.startswith("Preparing to run test"):
            continue
        else:
            text.append(ln)
    flush()
    if asks:
        rows = lib(["ks %d %d %s" % (cf.get("k", 0), len(v), " ".join(v)) for _, v in asks])
        for (e, _), o in zip(asks, rows):
            e["kp"].append(int(round(o["p"] * ONE)))
    return ev, a[1:]


def run(c):
    R = c.rnd
    m = 'SPECIFICATION Spec\nINVARIANTS Correspond OneRowEach OnlySelected AnyOrder\nCONSTANTS Strats = {%s}\nFiles = {%s}\nDropField = %s\n'
    if c.thorough:
        c.model("MReport", m % ("0, 1", '"", "f"', "FALSE"), min_states=500000, workers=8, heap="6g")
    else:
        # every 61st flag set is enough for a change-by-change run: the flags act independently
        c.model("MReport", (m % ("%d" % 1, '""', "FALSE")).replace("SPECIFICATION Spec", "INIT InitQ\nNEXT Next"), min_states=4000, workers=8)
    c.model_fails("MReport", (m % ("0", '""', "TRUE")).replace("SPECIFICATION Spec", "INIT InitQ\nNEXT Next"))
    descs = {k: bytes.fromhex(v).decode("latin1") for k, v in lib(["desc"])[0]["d"].items()}
    table = lib(["dtests"])[0]["t"]
    soft = gens.software()
    jobs = []

    def job(flags, all_=False, D=None, d=None, p=None, file=None):
        cf = session.default()
        cf.update(all=all_, d=d if d is not None else R.choice([t["num"] for t in table] + [102, 15]), n=R.choice([0, 0, 3, 7]), t=R.choice([0, 0, 500]),
                  p=p if p is not None else R.choice([1, 1, 2, 5, 12, 40]), seed=R.choice(["0", "1", str(R.randint(2, 2 ** 32 - 1))]), strat=R.choice([0, 0, 1]))
        if R.random() < .3:
            cf.update(fail=R.choice([1, 8]), weak=R.choice([16, 60]))
        if p is None:
            cf["k"] = R.choice([0, 0, 0, 1, 2, 3])
        if all_:
            cf.update(p=0, mn=1, md=16)
        if D is None:
            D = dargs(R, flags)
            if DEFAULT <= set(flags) and R.random() < .5:
                # "default" (or 0) replaces what came before and can be added to
                D = dargs(R, R.sample(NAMES, 2)) + [R.choice([{"n": 0, "s": "default"}, {"n": 0, "s": ""}])] + dargs(R, set(flags) - DEFAULT)
        nt = {x["num"]: x["nkps"] for x in table}.get(cf["d"], 1)
        pv = [R.choice([0, 1, 2, 128, 254, 255, 256, R.randint(0, 256), R.randint(0, 256), R.randint(100, 160)]) for _ in range(max(60, 4 * nt + 1))]
        g = {"num": 201, "name": "file_input_raw"} if file else R.choice(soft)
        sep = R.choice("||||,;:!~@%") if file is None else "|"
        if sep in g["name"]:
            sep = "|"
        jobs.append((cf, D, sep, g, file, pv, descs, R.random() < .4))
    for f in NAMES:
        job({f})
        job(set(NAMES) - {f})
        job({f, "test_name", "pvalues"} | DEFAULT)
    for i in range(c.n(110, 1500)):
        k = R.choice([1, 2, 3, 5, 8, 11, 15, 18])
        job(set(R.sample(NAMES, k)) | (DEFAULT if i % 7 == 0 else set()))
    for i in range(c.n(6, 40)):
        job(set(R.sample(NAMES, R.choice([4, 9, 15]))) - {"description"}, all_=True)
    for i in range(c.n(12, 80)):
        job(set(R.sample(NAMES, R.choice([3, 9, 15]))) | {"file_rng_stat"}, file=files.raw(R, 200)[0])
    job(set(), D=[])
    job(set(), D=[{"n": 0, "s": "default"}])
    for p in (100, 200, 199, 19, 20, 21, 240):
        job({"histogram", "pvalues", "psamples"}, d=15, p=p)
    job({"test_name", "pvalues", "psamples"}, d=15, p=10400)
    jobs[-1][0]["k"] = 1
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    # names that are no flag
    for bad in ("nosuch", "Header", "headers", "pvalue", "12x", "no_whitespaces", "file_rng_stats"):
        a = [build.shim_cli(), "-D", bad, "-d", "15", "-p", "1", "-g", "13", "-S", "1"]
        p = run_cmd(a, env={"VT_EV": "1", "VT_STUB": "1"})
        it = session.parse(p.stdout)
        res.append(([{"e": "refused", "flag": bad, "lines": len([x for x in it if x["e"] in ("row", "rng", "text")]),
                      "runs": len([x for x in it if x["e"] == "run"])}], a[1:]))

    def val(part):
        flat, pos = [], []
        for e, a in part:
            pos.append((len(flat), a))
            flat += e
        c.trace("TReport", flat, "report", ntraces=len(part), describe=lambda m: "dieharder " + " ".join([a for o, a in pos if o <= m][-1]))
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(val, [res[i::6] for i in range(6)]))
    c.cov["flag_sets"] = len(jobs)
    c.sample({"argv": res[0][1]})
    e = copy.deepcopy([e for e, a in res if any(x["e"] == "text" and len(x["L"]) > 3 for x in e)][0])
    x = [x for x in e if x["e"] == "text"][0]
    x["L"][-1]["f"][-1] += "1"
    c.trace_rejected("TReport", e)
    x["L"].pop()
    c.trace_rejected("TReport", e)
