"""C16: the output mode and its read-back."""
import copy
import os
import re
import struct
from concurrent.futures import ThreadPoolExecutor
from decimal import ROUND_HALF_EVEN, Decimal

from . import build, files, gens
from .check import Violation, lib, run_cmd

ASSUMPTIONS = ["the generator's stream itself is taken from the library under the same seed (C03, C25 decide the streams)"]
FMT = ["raw", "uint", "decimal"]


def digits(x):
    q = Decimal(x).quantize(Decimal(1).scaleb(-10), rounding=ROUND_HALF_EVEN)
    n = int(q.scaleb(10))
    return [n // 100000, n % 100000]


def parse(fmt, data):
    """Events of a dump's bytes; anything unexpected becomes an event of its own."""
    ev = []
    if fmt == "raw":
        n = len(data) // 4
        ev.append({"e": "values", "v": [files.hl(x) for x in struct.unpack("<%dI" % n, data[:4 * n])]})
        if len(data) % 4:
            ev.append({"e": "trailing bytes"})
        return ev
    lines = data.decode("latin1").split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    else:
        ev.append({"e": "last line not ended"})
    h, vals, i = {}, [], 0
    for i, ln in enumerate(lines):
        m = re.match(r"#\s*generator (.*?)\s+seed = (\d+)\s*$", ln)
        if m:
            h["gen"], h["seed"] = m.group(1), m.group(2)
        elif ln.startswith("#"):
            continue
        else:
            m = re.match(r"(type|count|numbit): (\S+)$", ln)
            if not m or m.group(1) in h:
                break
            h[m.group(1)] = m.group(2) if m.group(1) == "type" else int(m.group(2))
    ev.append({"e": "header", "h": h})
    bad = False
    for ln in lines[i:]:
        if fmt == "uint" and re.match(r"^\s*\d{1,10}$", ln):
            vals.append(files.hl(int(ln)))
        elif fmt == "decimal" and re.match(r"^\d\.\d{10}$", ln):
            n = int(ln.replace(".", ""))
            vals.append([n // 100000, n % 100000])
        else:
            bad = ln
            break
    ev.append({"e": "values", "v": vals})
    if bad is not False:
        ev.append({"e": "line", "s": bad[:80]})
    return ev


def one(j):
    g, fmt, n, seed, to, byname, extra = j
    out = files.tmp("dump-") if to == "file" else None
    if out:
        os.unlink(out)
    a = [build.cli(), "-o", "-O", str(FMT.index(fmt)), "-t", str(n), "-S", str(seed), "-g", g["name"] if byname else str(g["num"])]
    a += (["-f", out] if out else ["-f", "-"] if to == "dash" else []) + extra
    p = run_cmd(a, binary=True, timeout=60, what="dieharder " + " ".join(a[1:]))
    data = open(out, "rb").read() if out and os.path.exists(out) else p.stdout
    ev = []
    if out and p.stdout:
        ev.append({"e": "output elsewhere too"})
    if out is None:
        out = files.tmp("dump-")
        open(out, "wb").write(data)
    ev += parse(fmt, data) + [{"e": "end"}]
    # ---- the stream, from the library
    r = lib(["gnew 0 %d" % g["num"], "gseed 0 %d" % seed, ("guni 0 %d" if fmt == "decimal" else "gget 0 %d") % n])
    V = [digits(x) for x in r[2]["r"]] if fmt == "decimal" else [files.hl(x) for x in r[2]["r"]]
    ev.insert(0, {"e": "start", "job": {"fmt": fmt, "n": n, "gen": g["name"], "seed": str(seed)}, "V": V})
    # ---- read back
    if fmt != "raw" or n >= 16:
        k = n + max(1, n // 2) + 1
        r = lib(["file %s" % out, "gnew 0 %d" % (201 if fmt == "raw" else 202), "gseed 0 9", "gget 0 %d" % k], may_end=True)
        F = [files.hl(int((v[0] * 100000 + v[1]) * 0xffffffff // 10 ** 10)) for v in V] if fmt == "decimal" else V
        ev.append({"e": "back", "F": F})
        ev.append({"e": "get", "v": [files.hl(x) for x in r[3]["r"]]} if len(r) > 3 else {"e": "the dump is not accepted"})
    os.unlink(out)
    return ev, a


def run(c):
    R = c.rnd
    m = "SPECIFICATION Spec\nINVARIANTS Prefix Complete\nPROPERTY Back\nCONSTANTS Max = %d\nVariant = \"%s\"\n"
    c.model("MDump", m % (c.n(4, 6), "none"), min_states=500)
    c.model_fails("MDump", m % (2, "skip"))
    gs = gens.listed()
    soft = gens.software(gs)
    jobs = []
    for i, g in enumerate(soft):
        for fmt in FMT:
            if not c.thorough and (i + FMT.index(fmt)) % 3:
                continue
            jobs.append((g, fmt, R.choice([1, 16, 17, 30, 61]), R.randint(1, 2 ** 32 - 1), R.choice(["file", "stdout", "dash"]), R.random() < .3,
                         R.choice([[], [], ["-D", "8"], ["-s", "1"], ["-d", "0"], ["-p", "3"]])))
    main = [g for g in soft if g["num"] in (13, 14, 203, 204, 205, 206, 208, 209, 400, 401, 402, 403, 404, 405, 24, 39, 40, 56)]
    for i in range(c.n(40, 400)):
        g = R.choice(main)
        jobs.append((g, R.choice(FMT), R.choice([1, 2, 15, 16, 17, 100, 257]), R.choice([1, 2, 2 ** 31, 2 ** 32 - 1, R.randint(1, 2 ** 32 - 1)]),
                     R.choice(["file", "stdout"]), R.random() < .5, []))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    # ---- a file generator as the source: refused, its file untouched
    rej = []
    for num in (201, 202):
        for fmt in (0, 1, 2):
            for pre in ([], ["-g", "207", "-g", "13"]):
                p = files.raw(R, 40)[0] if num == 201 else files.formatted(R, "d", 20)[0]
                before = open(p, "rb").read()
                a = [build.cli(), "-o", "-O", str(fmt), "-t", "5", "-S", "1"] + pre + ["-g", str(num), "-f", p]
                r = run_cmd(a, binary=True)
                rej += [{"e": "refused", "file": True, "out": 0 if b"generator" not in r.stdout.split(b"#====")[0] else 1,
                         "kept": open(p, "rb").read() == before}]
    res.append((rej, ["(file generators)"]))
    parts = [res[i::6] for i in range(6)]

    def val(part):
        flat, pos = [], []
        for e, a in part:
            pos.append((len(flat), a))
            flat += e
        c.trace("TDump", flat, "dump", ntraces=len(part),
                describe=lambda m: "command line: " + " ".join([a for o, a in pos if o <= m][-1]))
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(val, parts))
    c.cov["generators"] = len(soft)
    c.sample(res[0][0][1:3])
    e = res[[j[1] for j in jobs].index("uint")][0]
    for f in (lambda b: b[1]["h"].update(count=b[1]["h"]["count"] + 1), lambda b: b[1]["h"].update(seed="3"),
              lambda b: b[2]["v"].pop(), lambda b: b[2]["v"].append([0, 0])):
        bad = copy.deepcopy(e)
        f(bad)
        c.trace_rejected("TDump", bad)
