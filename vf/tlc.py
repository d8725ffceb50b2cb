"""Run TLC on a module of /verif/specs, outside /verif."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import threading

from . import build

SPECS = os.path.join(build.HERE, "specs")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
_lock = threading.Lock()
totals = {"states": 0, "transitions": 0, "runs": 0}


class ModelError(Exception):
    """TLC could not evaluate the specification: an error of the check."""


class EvalError(ModelError):
    """A recorded trace or case has a shape the specification gives no meaning to."""



class Result:
    def __init__(self):
        self.ok = False
        self.violated = None      # name of the invariant / property / postcondition
        self.states = 0           # distinct states
        self.transitions = 0      # generated states
        self.depth = 0
        self.out = ""
        self.prints = []

    def print_of(self, tag):
        """Values printed as <<tag, ...>> by the specification."""
        return [p for p in self.prints if p.startswith('<<"%s"' % tag)]


def run(module, cfg, env=None, workers=1, timeout=600, heap="3g", extra=(), deadlock=False, count=True):
    work = tempfile.mkdtemp(prefix="tlc-", dir=build.scratch())
    for f in os.listdir(SPECS):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPECS, f), os.path.join(work, f))
    if "\n" in cfg:
        with open(os.path.join(work, "run.cfg"), "w") as f:
            f.write(cfg)
        cfgpath = "run.cfg"
    else:
        shutil.copy(os.path.join(SPECS, cfg), work)
        cfgpath = cfg
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Xss64m", "-Xmx" + heap,
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(work, "meta"),
           "-config", cfgpath, "-noGenerateSpecTE"]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        out = p.stdout
    except subprocess.TimeoutExpired as x:
        raise ModelError("TLC on %s ran out of its %d s" % (module, timeout))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    r = Result()
    r.out = out
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        r.transitions = int(m[-1][0].replace(",", ""))
        r.states = int(m[-1][1].replace(",", ""))
    m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
    if m:
        r.depth = int(m[-1])
    r.prints = [l for l in out.splitlines() if l.startswith("<<")]
    if count:
        with _lock:
            totals["states"] += r.states
            totals["transitions"] += r.transitions
            totals["runs"] += 1
    m = re.search(r"Invariant (\w+) is violated|Action property (\w+) is violated|Temporal properties were violated"
                  r"|The postcondition (\w+)|POSTCONDITION|Assumption (.*) is false|Deadlock reached", out)
    if "Model checking completed. No error has been found." in out and "Error:" not in out:
        r.ok = True
    elif re.search(r"Invariant (\w+) is violated", out):
        r.violated = re.search(r"Invariant (\w+) is violated", out).group(1)
    elif re.search(r"[Pp]roperty (\w+) is violated", out):
        r.violated = re.search(r"[Pp]roperty (\w+) is violated", out).group(1)
    elif re.search(r"Temporal propert\w+ .*violated", out):
        r.violated = "temporal"
    elif "Deadlock reached" in out:
        r.violated = "deadlock"
    elif re.search(r"[Pp]ostcondition", out) and "evaluat" not in out.lower().split("postcondition")[-1][:200]:
        r.violated = "postcondition"
    elif re.search(r"Evaluating assumption|Assumption line .* is false", out):
        r.violated = "assumption"
    elif re.search(r"Attempted to|outside (?:of )?(?:the |its )?domain|evaluating the nested", out) and r.states:
        raise EvalError("TLC on %s/%s: %s" % (module, cfgpath, out[-3000:]))
    else:
        raise ModelError("TLC on %s/%s: %s" % (module, cfgpath, out[-3000:]))
    return r


def write_json(path, objs):
    with open(path, "w") as f:
        for o in objs:
            f.write(json.dumps(o, separators=(",", ":")) + "\n")
    return path


def validate(module, events, consts="", spec="TraceSpec", timeout=600, invs=(), heap="3g", env=None, constraint=None):
    """Trace validation: is the event list a behaviour of the trace spec?
    Returns (accepted, number of events matched, Result)."""
    path = tempfile.mktemp(prefix="trace-", suffix=".ndjson", dir=build.scratch())
    write_json(path, events)
    cfg = "SPECIFICATION %s\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" % spec
    if consts:
        cfg += "CONSTANTS\n" + consts + "\n"
    for i in invs:
        cfg += "INVARIANT %s\n" % i
    if constraint:
        cfg += "CONSTRAINT %s\n" % constraint
    e = {"TRACE": path}
    e.update(env or {})
    try:
        r = run(module, cfg, env=e, timeout=timeout, heap=heap)
    finally:
        if os.path.exists(path):
            os.unlink(path)
    d = [p for p in r.prints if p.startswith('<<"MATCHED"')]
    matched = int(re.search(r"(\d+)", d[-1]).group(1)) if d else len(events) if r.ok else 0
    return r.ok, matched, r


def cases(module, records, consts="", inv="CaseOk", timeout=600, heap="3g", parts=1, env=None):
    """Functional conformance: one state per recorded case, invariant CaseOk.
    Returns (index of a failing record or None, Result)."""
    from concurrent.futures import ThreadPoolExecutor
    n = len(records)
    parts = max(1, min(parts, n))
    cuts = [(n * i // parts, n * (i + 1) // parts) for i in range(parts)]

    def one(c):
        a, b = c
        path = tempfile.mktemp(prefix="cases-", suffix=".ndjson", dir=build.scratch())
        write_json(path, records[a:b])
        cfg = "SPECIFICATION CaseSpec\nINVARIANT %s\nPOSTCONDITION AllCases\nCHECK_DEADLOCK FALSE\n" % inv
        if consts:
            cfg += "CONSTANTS\n" + consts + "\n"
        e = {"TRACE": path}
        e.update(env or {})
        try:
            r = run(module, cfg, env=e, timeout=timeout, heap=heap)
        finally:
            os.unlink(path)
        if r.ok:
            return None, r
        if r.violated == "postcondition":
            raise ModelError("cases skipped\n" + r.out[-2000:])
        m = re.findall(r"/?\\? ?k = (\d+)", r.out)
        return a + int(m[-1]) - 1, r

    with ThreadPoolExecutor(parts) as ex:
        res = list(ex.map(one, cuts))
    for i, r in res:
        if i is not None:
            return i, r
    return None, res[0][1]
