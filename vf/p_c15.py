"""C15: standard input."""
import copy
import json
import os
import re
import struct
import subprocess
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from . import build, files, session
from .check import Violation

ASSUMPTIONS = ["little-endian host"]


def feed(cmd, env, data, sizes, delay, what):
    """Run cmd with data on its standard input, in chunks of the given sizes."""
    e = dict(os.environ)
    e.update(env)
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=build.scratch())

    def pump():
        i = k = 0
        try:
            while i < len(data):
                n = sizes[k % len(sizes)]
                os.write(p.stdin.fileno(), data[i:i + n])
                i += n
                k += 1
                if delay and k % delay == 0:
                    time.sleep(0.002)
        except (BrokenPipeError, OSError):
            pass
        try:
            p.stdin.close()
        except OSError:
            pass
    t = threading.Thread(target=pump)
    t.start()
    res = {}

    def rd(k, f):
        res[k] = f.read()
    ts = [threading.Thread(target=rd, args=("o", p.stdout)), threading.Thread(target=rd, args=("e", p.stderr))]
    for x in ts:
        x.start()
    try:
        p.wait(timeout=90)
    except subprocess.TimeoutExpired:
        p.kill()
        raise Violation("%s does not terminate" % what, {"cmd": cmd})
    t.join()
    for x in ts:
        x.join()
    if p.returncode < 0:
        raise Violation("%s is killed by signal %d" % (what, -p.returncode), {"cmd": cmd, "bytes": data.hex()[:400]})
    return p.returncode, res["o"], res["e"].decode("utf8", "replace")


def wb(x):
    return list(struct.pack("<I", x & 0xffffffff))


def job(R, thorough):
    n = R.choice([0, 1, 2, 5, 40, 200, 1030])
    tail = R.randrange(4)
    data = struct.pack("<%dI" % n, *files.words(R, n)) + bytes(R.randrange(256) for _ in range(tail))
    sizes = R.choice([[1], [3], [7], [4], [5, 1, 2], [64, 3], [4096], [1, 4095, 1], [9999999]])
    return data, sizes, R.choice([0, 0, 1, 5]) if len(data) < 1000 else 0


def stub(args):
    """A session whose (scripted) tests take raw words: trace events."""
    data, sizes, delay, opts, k = args
    cmd = [build.shim_cli(), "-D", str(session.FLAGS), "-c", "|", "-g", "200"] + opts
    code, out, err = feed(cmd, {"VT_EV": "1", "VT_STUB": "1", "VT_RAW": str(k)}, data, sizes, delay, "dieharder " + " ".join(cmd[1:]))
    ev = [{"e": "begin", "bytes": list(data)}]
    cut = False
    for it in out.decode("latin1").split("\n"):
        if it.startswith("\x01"):
            try:
                o = json.loads(it[1:])
            except ValueError:
                m = re.search(r'"r":\[([\d,]*)', it)
                o = {"e": "run", "r": [int(x) for x in m.group(1).split(",") if x] if m else []}
                cut = True
            if o["e"] == "run":
                ev.append({"e": "take", "w": [wb(x) for x in o["r"]]})
        elif it.startswith("2|"):
            ev.append({"e": "row"})
    if cut or len([e for e in ev if e["e"] == "row"]) == 0:
        ev.append({"e": "stop", "msg": bool(err.strip())})
    return ev, cmd


def dump(args):
    """The output mode reading standard input."""
    data, sizes, delay, fmt, n = args
    cmd = [build.cli(), "-D", "8", "-g", "200", "-o", "-O", str(fmt), "-t", str(n)]
    code, out, err = feed(cmd, {}, data, sizes, delay, "dieharder " + " ".join(cmd[1:]))
    if fmt == 0:
        w = [list(out[i:i + 4]) for i in range(0, len(out) - len(out) % 4, 4)]
    else:
        w = [wb(int(x)) for x in out.decode().split("\n") if re.match(r"^\s*\d+$", x)]
    ev = [{"e": "begin", "bytes": list(data)}, {"e": "take", "w": w}]
    if len(w) == n:
        ev.append({"e": "row"})
    else:
        ev.append({"e": "stop", "msg": bool(err.strip())})
    return ev, cmd


def run(c):
    R = c.rnd
    m = "SPECIFICATION Spec\nINVARIANTS Exact Paid\nPROPERTY Ends\nCONSTANTS W = %d\nMax = %d\nPerRow = %d\nVariant = \"%s\"\n"
    for w, mx, pr in ((2, c.n(13, 40), 2), (4, c.n(27, 80), 3)):
        c.model("MStdin", m % (w, mx, pr, "none"), min_states=100)
    for v in ("short", "paper"):
        c.model_fails("MStdin", m % (2, 5, 2, v))
    jobs = []
    for i in range(c.n(70, 500)):
        data, sizes, delay = job(R, c.thorough)
        n = len(data) // 4
        k = R.choice([1, 3, max(1, n - 1), max(1, n), n + 1, n // 2 + 1])
        o = ["-d", str(R.choice([0, 2, 15, 100, 203])), "-p", str(R.choice([1, 2, 3]))]
        if R.random() < .4:
            o += ["-s", "1"]
        if R.random() < .5:
            o += ["-S", "77"]
        jobs.append((stub, (data, sizes, delay, o, k)))
    for i in range(2):
        data = struct.pack("<900I", *files.words(R, 900))
        jobs.append((stub, (data, [13], 0, ["-a", "-m", "0.01", "-s", str(i)], R.choice([3, 20]))))
    for i in range(c.n(40, 300)):
        data, sizes, delay = job(R, c.thorough)
        n = len(data) // 4
        jobs.append((dump, (data, sizes, delay, R.choice([0, 1]), max(1, R.choice([1, n - 1, n, n + 1, n + 5])))))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: j[0](j[1]), jobs))
    parts = [res[i::6] for i in range(6)]

    def val(part):
        flat, pos = [], []
        for e, a in part:
            pos.append((len(flat), a))
            flat += e
        c.trace("TStdin", flat, "runs on standard input", ntraces=len(part), consts="W = 4",
                describe=lambda m: "command line: " + " ".join([a for o, a in pos if o <= m][-1]))
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(val, parts))
    stops = len([1 for e, a in res if e[-1]["e"] == "stop"])
    c.cov["runs_to_the_end_of_the_stream"] = stops
    c.cov["runs_with_results"] = len(res) - stops
    good = [e for e, a in res if e[-1]["e"] == "row" and any(x["e"] == "take" and len(x["w"]) > 1 for x in e)][0]
    c.sample(good[1:3])
    k = [i for i, x in enumerate(good) if x["e"] == "take" and len(x["w"]) > 1][0]
    bad = copy.deepcopy(good)
    bad[k]["w"][1][0] ^= 1
    c.trace_rejected("TStdin", bad, consts="W = 4")
    bad = copy.deepcopy(good)
    bad[0]["bytes"] = bad[0]["bytes"][:4 * len(bad[k]["w"]) - 1]
    c.trace_rejected("TStdin", bad, consts="W = 4")
