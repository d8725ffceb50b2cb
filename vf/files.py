"""Files for the file generators, and recorded use of them as traces of FileCursor."""
import json
import os
import re
import struct
import tempfile

from . import build, check, session


def hl(x):
    x &= 0xffffffff
    return [x >> 16, x & 0xffff]


def words(R, n):
    k = R.randrange(3)
    if k == 0:
        return [R.getrandbits(32) for _ in range(n)]
    if k == 1:
        return [R.choice([0, 1, 0xffffffff, 0x80000000, 0x7fffffff, 0x0a0d1a00, 0x0a0a0a0a]) for _ in range(n)]
    b = R.getrandbits(32)
    return [(b + 2654435761 * i) & 0xffffffff for i in range(n)]


def tmp(prefix="in-", sub=None):
    d = build.scratch()
    fd, p = tempfile.mkstemp(prefix=prefix, dir=d)
    os.close(fd)
    return p


def raw(R, n, tail=None, path=None):
    """A raw file of n words and 0..3 further bytes."""
    w = words(R, n)
    p = path or tmp()
    with open(p, "wb") as f:
        f.write(struct.pack("<%dI" % n, *w))
        f.write(bytes(R.randrange(1, 256) for _ in range(R.randrange(4) if tail is None else tail)))
    return p, [hl(x) for x in w], {"kind": "raw", "there": True, "dir": False, "words": n}


def fmt_value(R, t, x, numbit):
    """Text of one listed number of type t and the word it stands for."""
    if t in "du":
        return R.choice(["%u", "%10u", "%u "]) % x, x
    if t == "i":
        return "%u" % x, x
    if t == "o":
        return R.choice(["%o", "0%o", " %o"]) % x, x
    if t == "x":
        return R.choice(["%x", "0x%x", "%08x", "%X"]) % x, x
    if t == "X":
        return R.choice(["%X", "0X%X", "%08X"]) % x, x
    if t == "b":
        x &= (1 << numbit) - 1
        return format(x, "0%db" % numbit), x
    # decimals in [0,1]: exactly representable ones, so that scaling has one answer
    k = R.choice([1, 2, 3, 8, 16, 20, 31])
    m = R.randrange(0, 2 ** k + 1)
    f = m / float(2 ** k)
    s = {"e": "%.25e", "E": "%.25E", "f": "%.32f", "F": "%.32f", "g": "%.30g"}[t] % f
    return s, int(m * 0xffffffff // 2 ** k)


def formatted(R, t, n, extra=0, short=0, path=None):
    """A well-formed list of n numbers (extra more lines, or `short` fewer than declared)."""
    numbit = R.choice([32, 32, 31, 24, 16, 8, 1]) if t == "b" else R.choice([32, 32, 16, 8, 31])
    lines, vals = [], []
    for i in range(n - short):
        s, v = fmt_value(R, t, words(R, 1)[0], numbit)
        lines.append(s)
        vals.append(hl(v))
    for i in range(extra):
        lines.append(fmt_value(R, t, words(R, 1)[0], numbit)[0])
    hd = [("type", t, 0), ("count", str(n), n), ("numbit", str(numbit), numbit)]
    R.shuffle(hd)
    txt = ["#" + "=" * 60, "# generator whatever  seed = 17"] if R.random() < .7 else []
    h = []
    for nm, v, k in hd:
        if R.random() < .2:
            txt.append("# a comment, type: q count: 3")
        if R.random() < .15:
            txt.append("origin: here")
            h.append({"name": "origin", "fields": 2, "val": "here", "num": 0})
        txt.append(R.choice(["%s: %s", "%s:\t%s", "%s %s", "%s : %s "]) % (nm, v))
        h.append({"name": nm, "fields": 2, "val": v, "num": k})
    p = path or tmp()
    with open(p, "w") as f:
        f.write("\n".join(txt + lines) + "\n")
    return p, vals, {"kind": "formatted", "there": True, "dir": False, "h": h}


def malformed(R, t):
    """A file whose header is not one: (path, description)."""
    n = R.randrange(2, 9)
    hd = [["type", t, 0, 2], ["count", str(n), n, 2], ["numbit", "32", 32, 2]]
    k = R.choice(["missing", "double", "fields1", "fields3", "count0", "countneg", "counttext", "type", "empty", "blank"])
    if k == "missing":
        del hd[R.randrange(3)]
    elif k == "double":
        i = R.randrange(3)
        hd[(i + 1) % 3] = list(hd[i])
    elif k == "fields1":
        i = R.randrange(3)
        hd[i][1], hd[i][3] = "", 1
    elif k == "fields3":
        i = R.randrange(3)
        hd[i][1], hd[i][3] = hd[i][1] + " 7", 3
    elif k.startswith("count"):
        v = {"count0": "0", "countneg": "-3", "counttext": "many"}[k]
        hd[1][1], hd[1][2] = v, 0
    elif k == "type":
        hd[0][1] = R.choice(["z", "q", "s", "c", "?", "1"])
    elif k == "empty":
        hd = []
    R.shuffle(hd)
    h = [{"name": a, "fields": c, "val": b, "num": d} for a, b, d, c in hd]
    txt = ["%s: %s" % (a, b) for a, b, _, _ in hd]
    if k == "blank":
        i = R.randrange(3)
        txt.insert(i, "")
        h.insert(i, {"name": "", "fields": 0, "val": "", "num": 0})
    p = tmp()
    with open(p, "w") as f:
        f.write("# a list\n" + "".join(x + "\n" for x in txt))
        if k in ("missing", "double", "empty", "blank"):
            # data lines have one field only, so the header can never be completed by them
            body = ["%u" % x for x in words(R, n)]
            h += [{"name": "n", "fields": 1, "val": "n", "num": 0} for _ in body] if k != "blank" else []
        else:
            body = [fmt_value(R, t, x, 32)[0] for x in words(R, n)]
        f.write("\n".join(body) + "\n")
    return p, {"kind": "formatted", "there": True, "dir": False, "h": h}, k


def cli_rows(out):
    return len([l for l in out.splitlines() if re.search(r"\|(PASSED|WEAK|FAILED)|\b(PASSED|WEAK|FAILED)\b", l)])


def cli(gen, path, F, f, d, p, raw_n, strat, seed, use_stub=True, all_=False, declared=None):
    """One run of the program on a file: trace events."""
    a = [build.shim_cli(), "-D", str(session.FLAGS + 131072), "-c", "|", "-g", str(gen), "-f", path]
    a += ["-a"] if all_ else ["-d", str(d), "-p", str(p)]
    if strat:
        a += ["-s", str(strat)]
    if seed:
        a += ["-S", str(seed)]
    e = {"VT_EV": "1", "VT_STUB": "1", "VT_RAW": str(raw_n)}
    r = check.run_cmd(a, env=e, timeout=60, what="dieharder " + " ".join(a[1:]))
    rows = cli_rows(r.stdout)
    if F is None:
        return [{"e": "begin"}, {"e": "refused", "f": f, "rows": rows}], a
    late = [int(x) for x in re.findall(r"was rewound (\d+) times", r.stderr)]
    ev = [{"e": "begin"}, {"e": "open", "g": "r", "F": F, "f": f}]
    pend = None
    for it in r.stdout.split("\n"):
        if it.startswith("\x01"):
            try:
                o = json.loads(it[1:])
            except ValueError:
                # cut off by the end of the process
                m = re.search(r'"r":\[([\d,]*)', it)
                o = {"e": "run", "r": [int(x) for x in m.group(1).split(",") if x]} if m else {"e": ""}
            if o["e"] == "set":
                ev.append({"e": "seed", "g": "r"})
            elif o["e"] == "run":
                ev.append({"e": "get", "g": "r", "v": [hl(x) for x in o["r"]]})
        else:
            m = re.match(r"# The (?:file )?\S+ file_input\S* (\d+) rands", it)
            if m:
                if pend:
                    pend["rw"] = late.pop(0) if late else -1
                pend = {"e": "stat", "g": "r", "tot": int(m.group(1)), "rw": None}
                ev.append(pend)
            m = re.match(r"# The file file_input\S* was rewound (\d+) times", it)
            if m and pend:
                pend["rw"] = int(m.group(1))
                pend = None
    if pend:
        pend["rw"] = late.pop(0) if late else -1
    if declared:
        return ev + [{"e": "ended", "g": "r", "declared": declared, "rows": rows}], a
    if r.returncode != 0 or rows == 0:
        ev.append({"e": "run without result", "exit": r.returncode, "stderr": r.stderr[-200:]})
    return ev, a
