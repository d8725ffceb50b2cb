"""The frame every property check runs in."""
import json
import os
import random
import re
import subprocess
import sys
import time
import traceback

from . import build, tlc

EVID = os.path.join(build.HERE, "evidence")


class Violation(Exception):
    def __init__(self, what, replay=None):
        Exception.__init__(self, what)
        self.what = what
        self.replay = replay      # anything JSON-serialisable


class Ctx:
    """One run of a check: randomness, tier, coverage counters."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.rnd = random.Random("%s/%d" % (pid, seed))
        self.cov = {"traces_validated_against_impl": 0, "events_validated": 0, "cases_validated": 0}
        self.samples = []
        self.notes = []
        self.known = []
        self.t0 = time.time()

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def finding(self, key, shows):
        """A listed defect's own demonstration: reported, not raised, while it shows."""
        if not shows:
            return
        for ln in open(os.path.join(build.HERE, "KNOWN_FINDINGS")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln)
            if m and m.group(1) == self.pid and m.group(2) == key:
                self.known.append(m.group(3).strip())
                return
        raise Violation("demonstration %s fails and is not a listed finding" % key, {"key": key})

    # -- model checking ----------------------------------------------------
    def model(self, module, cfg, workers=4, timeout=800, min_states=2, **kw):
        """An exhaustive run on the specification itself; must hold."""
        r = tlc.run(module, cfg, workers=workers, timeout=timeout, **kw)
        if not r.ok:
            raise tlc.ModelError("%s: the specification violates %s\n%s" % (module, r.violated, r.out[-3000:]))
        if r.states < min_states:
            raise tlc.ModelError("%s: only %d states, the model is vacuous" % (module, r.states))
        self.cov.setdefault("models", {})[module + ":" + (cfg if "\n" not in cfg else "inline")] = \
            {"states": r.states, "transitions": r.transitions, "depth": r.depth}
        return r

    def model_fails(self, module, cfg, workers=2, **kw):
        """A deliberately wrong variant: the specification must reject it."""
        r = tlc.run(module, cfg, workers=workers, count=False, **kw)
        if r.ok:
            raise tlc.ModelError("%s: a wrong variant satisfies the property: the check is vacuous" % module)
        self.add("wrong_variants_rejected")
        return r

    # -- conformance -------------------------------------------------------
    def trace(self, module, events, what, ntraces=1, consts="", describe=None, **kw):
        try:
            ok, m, r = tlc.validate(module, events, consts=consts, **kw)
        except tlc.EvalError as e:
            raise Violation("%s: %s gives the recorded trace no meaning" % (what, module),
                            {"module": module, "consts": consts, "trace": events[:200], "tlc": str(e)[-1500:]})
        self.add("traces_validated_against_impl", ntraces)
        self.add("events_validated", len(events))
        if not ok:
            bad = events[m] if m < len(events) else None
            raise Violation("%s: event %d of the recorded trace is not a behaviour of %s: %s" %
                            (what, m + 1, module, json.dumps(bad)[:600]),
                            {"module": module, "consts": consts, "trace": events[max(0, m - 40):m + 1], "event": m + 1,
                             "note": describe(m) if describe else None})
        return r

    def trace_rejected(self, module, events, consts="", **kw):
        """Binding demonstration: a corrupted trace must be rejected."""
        ok, m, r = tlc.validate(module, events, consts=consts, **kw)
        if ok:
            raise tlc.ModelError("%s accepts a corrupted trace: the trace spec is too weak" % module)
        self.add("corrupted_traces_rejected")

    def cases(self, module, records, what, consts="", parts=1, **kw):
        try:
            i, r = tlc.cases(module, records, consts=consts, parts=parts, **kw)
        except tlc.EvalError as e:
            raise Violation("%s: %s gives a recorded case no meaning" % (what, module),
                            {"module": module, "consts": consts, "tlc": str(e)[-1500:]})
        self.add("traces_validated_against_impl", len(records))
        self.add("cases_validated", len(records))
        if i is not None:
            raise Violation("%s: the code's result for case %d differs from %s: %s" %
                            (what, i + 1, module, json.dumps(records[i])[:600]),
                            {"module": module, "consts": consts, "case": records[i]})
        return r

    def cases_rejected(self, module, records, consts="", **kw):
        i, r = tlc.cases(module, records, consts=consts, **kw)
        if i is None:
            raise tlc.ModelError("%s accepts a corrupted case: the case spec is too weak" % module)
        self.add("corrupted_traces_rejected")


# -- the real code -----------------------------------------------------------
def run_cmd(cmd, timeout=120, env=None, stdin=None, cwd=None, binary=False, what=None):
    """Run the code under test. A crash or a hang is a violation."""
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=e, cwd=cwd or build.scratch(), text=not binary,
                           stdin=None if stdin is not None else subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise Violation("%s does not terminate within %d s" % (what or cmd, timeout), {"cmd": [str(c) for c in cmd], "env": env})
    if p.returncode < 0:
        raise Violation("%s is killed by signal %d" % (what or cmd, -p.returncode),
                        {"cmd": [str(c) for c in cmd], "env": env, "stdin": (stdin if isinstance(stdin, str) else None)})
    return p


def lib(script, timeout=300, what="library driver", may_end=False):
    """Run a libdrv script (list of command strings); list of result objects.
    may_end: the library may end the process (exit status 0) before the end."""
    p = run_cmd([build.libdrv()], timeout=timeout, stdin="\n".join(script) + "\n", what=what)
    rows = []
    for ln in p.stdout.splitlines():
        try:
            rows.append(json.loads(ln))
        except ValueError:
            break       # cut off: the process ended inside a command
    if p.returncode != 0 and p.returncode >= 97:
        raise tlc.ModelError("libdrv: " + p.stderr[-500:])
    if may_end and p.returncode == 0:
        return rows
    if p.returncode != 0 or len(rows) != len([s for s in script if s.strip()]):
        raise Violation("%s: the library ends the process (exit %d) in command %r" %
                        (what, p.returncode, script[min(len(rows), len(script) - 1)][:200]),
                        {"script": script[max(0, len(rows) - 50):len(rows) + 1], "stderr": p.stderr[-500:]})
    return rows


def main(pid, fn, tier, level="model_checking", assumptions=()):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()

    def attempt():
        tlc.totals.update(states=0, transitions=0, runs=0)
        c = Ctx(pid, tier, seed)
        try:
            fn(c)
            return c, None
        except Violation as v:
            return c, v
        except (ValueError, LookupError, TypeError, ArithmeticError, AttributeError) as e:
            # what the code printed has a form no run of the original has
            tb = traceback.format_exc()
            print(tb, flush=True)
            return c, Violation("the recorded output cannot be read: %r" % e, {"traceback": tb[-3000:]})

    try:
        c, v = attempt()
        if v is not None:
            print("first attempt: %s" % v.what, flush=True)
            c2, v2 = attempt()
            if v2 is None:
                c3, v3 = attempt()
                if v3 is None:
                    c3.notes.append("an alarm of the first attempt did not repeat: " + str(v))
                    c, v = c3, None
                else:
                    c, v = c3, v3
            else:
                c, v = c2, v2
    except build.BuildError as e:
        print("ERROR: /repo or the harness does not build:\n%s" % e)
        return 3
    except tlc.ModelError as e:
        print("ERROR: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    cov = dict(c.cov)
    cov["states"] = tlc.totals["states"]
    cov["transitions"] = tlc.totals["transitions"]
    cov["samples"] = c.samples or ["(none)"]
    if c.notes:
        cov["notes"] = c.notes
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": 0 if v is None else 1}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in c.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if v is None:
        print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" %
              (pid, tier, cov["states"], cov["traces_validated_against_impl"], time.time() - t0))
        return 0
    path = os.path.join(EVID, "replay_%s.json" % pid)
    with open(path, "w") as f:
        json.dump({"property": pid, "what": v.what, "replay": v.replay}, f, indent=1)
    print(v.what)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1
