"""C17: selecting a generator."""
import copy
import re
import struct
from concurrent.futures import ThreadPoolExecutor

from . import build, files, gens, session
from .check import Violation, lib, run_cmd

ASSUMPTIONS = []
K = 6


def listing(args):
    p = run_cmd([build.cli()] + args)
    L = []
    for ln in p.stdout.splitlines():
        if ln.startswith("|"):
            for m in re.finditer(r"(\d{3}) (\S(?:.{0,18}\S)?) *\|", ln[1:]):
                L.append({"num": int(m.group(1)), "name": m.group(2)})
    return L


def one(j):
    """(arguments, request, reference words or None, stdin)"""
    args, r, refs, stdin = j
    cmd = [build.shim_cli(), "-D", str(session.FLAGS), "-c", "|", "-d", "15", "-p", "1", "-S", "4711"] + args
    p = run_cmd(cmd, env={"VT_EV": "1", "VT_STUB": "1", "VT_RAW": str(K)}, stdin=stdin, binary=True,
                what="dieharder " + " ".join(cmd[1:]))
    items = session.parse(p.stdout.decode("latin1"))
    rows = [i for i in items if i["e"] == "row"]
    runs = [i for i in items if i["e"] == "run"]
    rng = [i for i in items if i["e"] == "rng"]
    if not rng:
        return {"e": "refuse", "r": r, "rows": len(rows), "runs": len(runs)}, cmd
    num, name = int(rng[0]["f"][1]), rng[0]["f"][0]
    w = [files.hl(x) for x in runs[0]["r"]] if runs else []
    ref = refs.get(num)
    return {"e": "select", "r": r, "rows": len(rows), "g": {"num": num, "name": name},
            "w": w if ref is not None else [], "ref": [files.hl(x) for x in ref] if ref is not None else []}, cmd


def run(c):
    R = c.rnd
    m = "SPECIFICATION Spec\nINVARIANTS Unique Same Asked\nPROPERTY Answered\nCONSTANT Variant = \"%s\"\n"
    c.model("MRegistry", m % "none", min_states=100)
    c.model_fails("MRegistry", m % "prefix")
    reg = gens.listed()
    regl = [{"num": g["num"], "name": g["name"]} for g in reg]
    ev = []
    L = listing(["-g", "-1"])
    ev.append({"e": "list", "L": L, "reg": regl})
    # ---- the stream every listed generator has under this seed
    soft = gens.software(reg)
    data = struct.pack("<2000I", *[R.getrandbits(32) for _ in range(2000)])
    fraw = files.tmp()
    open(fraw, "wb").write(data)
    ftxt, FT, _ = files.formatted(R, "d", 40)
    refs = {}
    script = []
    for i, g in enumerate(soft):
        script += ["gnew 0 %d" % g["num"], "gseed 0 4711", "gget 0 %d" % K]
    out = lib(script)
    for i, g in enumerate(soft):
        refs[g["num"]] = out[3 * i + 2]["r"]
    refs[201] = list(struct.unpack("<%dI" % K, data[:4 * K]))
    refs[200] = refs[201]
    refs[202] = [a * 65536 + b for a, b in FT[:K]]
    jobs = [([], {"by": "default"}, refs, None)]
    for g in L:
        n = g["name"]
        more, stdin = [], None
        if n == "file_input_raw":
            more = ["-f", fraw]
        elif n == "file_input":
            more = ["-f", ftxt]
        elif n == "stdin_input_raw":
            stdin = data
        elif n.startswith("XOR"):
            more = ["-g", "13"]
        for a, r in ((str(g["num"]), {"by": "num", "num": g["num"]}), (n, {"by": "name", "name": n}),
                     ("%05d" % g["num"], {"by": "num", "num": g["num"]})):
            jobs.append((["-g", a] + more, r, refs, stdin))
    # ---- everything that is not listed
    nums = {g["num"] for g in L}
    names = {g["name"] for g in L}
    un = [n for n in range(0, 1000) if n not in nums]
    if not c.thorough:
        edge = [n for n in un if n - 1 in nums or n + 1 in nums]
        un = edge + R.sample(un, 150)
    for n in un + [1000, 1001, 1013, 2000, 65549, 100000, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 13, 2 ** 32, 2 ** 32 + 13, 2 ** 40, -1, -2, -13, -1000]:
        jobs.append((["-g", str(n)], {"by": "num", "num": n if abs(n) < 2 ** 31 else 2 ** 31 - 1}, refs, None))
    bad = set()
    for n in names:
        bad |= {n[:-1], n + "x", n.upper(), n.capitalize(), n[1:], n + " ", " " + n, n + n, n[:20] + "junk", n.replace("_", "-")}
    bad |= {"13x", "0x13", "13.0", "mt", "MT19937", "mt19937 ", "x" * 200, "mt19937" + "x" * 150, "(null)", "/dev/null", "13,14", "+", "-"}
    # a name made of digits only is a number, and a number with a sign or leading blanks is a number
    bad = sorted(b for b in bad if b not in names and b.strip() and not re.match(r"^\s*[+-]?\d+$", b))
    if not c.thorough:
        keep = [b for b in bad if "junk" in b or "x" * 50 in b or b[0].isdigit()]
        bad = keep + R.sample(bad, 120)
    for b in bad:
        jobs.append((["-g", b], {"by": "name", "name": b}, refs, None))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    ev += [e for e, _ in res]
    c.trace("TRegistry", ev, "selecting a generator", ntraces=len(ev),
            describe=lambda m: "command line: " + (" ".join(res[m - 1][1]) if m else "listing"))
    c.cov["listed"] = len(L)
    c.cov["requests"] = len(jobs)
    c.sample(ev[3])
    for f in (lambda e: e[3]["g"].update(num=e[3]["g"]["num"] + 1), lambda e: e[3].update(r={"by": "num", "num": 998}),
              lambda e: e[0]["L"].pop(), lambda e: e[3]["ref"].reverse()):
        b = copy.deepcopy(ev[:5])
        f(b)
        c.trace_rejected("TRegistry", b)
