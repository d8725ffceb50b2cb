"""Build /repo's current working tree into a scratch directory of our own.

Nothing is ever written below /repo: objects, libraries, harnesses and traces
all live in one scratch directory that is removed when the check ends.
"""
import atexit
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(HERE, "harness")

_scratch = None
_lock = threading.RLock()


def _locked(fn):
    def g(*a, **k):
        with _lock:
            return fn(*a, **k)
    g.__doc__ = fn.__doc__
    return g


class BuildError(Exception):
    pass


@_locked
def scratch():
    """The scratch directory of this process (created once, removed at exit)."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf-")
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)

        atexit.register(clean)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *_: sys.exit(3))
    return _scratch


def _sources(subdir):
    """The *_SOURCES list of subdir/Makefile.am (what the project itself builds)."""
    txt = open(os.path.join(REPO, subdir, "Makefile.am")).read()
    m = re.search(r"^\w+_SOURCES\s*=\s*((?:.*\\\n)*.*)", txt, re.M)
    return [w for w in m.group(1).replace("\\\n", " ").split() if w.endswith(".c")]


CFLAGS = ["-std=c99", "-g", "-O2", "-w", "-DVERSION=3.31.1", "-DLITTLE_ENDIAN=1"]


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


_objs = {}


@_locked
def objects(extra=()):
    """Compile library and tty application; return (lib objects, app objects)."""
    key = tuple(extra)
    if key in _objs:
        return _objs[key]
    out = os.path.join(scratch(), "obj%d" % len(_objs))
    os.makedirs(out)
    jobs = []
    res = {"lib": [], "app": []}
    for kind, sub in (("lib", "libdieharder"), ("app", "dieharder")):
        for s in _sources(sub):
            o = os.path.join(out, kind + "_" + s[:-2] + ".o")
            d = os.path.join(REPO, sub)
            jobs.append(["gcc"] + CFLAGS + list(extra) +
                        ["-I" + d, "-I" + REPO, "-I" + os.path.join(REPO, "include"),
                         "-c", os.path.join(d, s), "-o", o])
            res[kind].append(o)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(_run, jobs))
    ar = os.path.join(out, "libdieharder.a")
    _run(["ar", "rcs", ar] + res["lib"])
    _objs[key] = ([ar], res["app"])
    return _objs[key]


LIBS = ["-lgsl", "-lgslcblas", "-lm"]


@_locked
def cli():
    """The tty application exactly as the sources say."""
    lib, app = objects()
    exe = os.path.join(scratch(), "dieharder")
    if not os.path.exists(exe):
        _run(["gcc", "-g", "-o", exe] + app + lib + LIBS)
    return exe


@_locked
def shim_cli():
    """The application linked with harness/shim.c at its outer boundary: the
    list of generators the GSL offers and the registered test functions."""
    lib, app = objects()
    exe = os.path.join(scratch(), "dieharder_shim")
    if not os.path.exists(exe):
        o = os.path.join(scratch(), "shim.o")
        _run(["gcc"] + CFLAGS + ["-std=gnu99", "-I" + os.path.join(REPO, "include"),
              "-c", os.path.join(HARNESS, "shim.c"), "-o", o])
        _run(["gcc", "-g", "-o", exe, "-Wl,--wrap=gsl_rng_types_setup",
              "-Wl,--wrap=dieharder_test_types", "-Wl,--wrap=gsl_rng_set"] + app + [o] + lib + LIBS)
    return exe


@_locked
def libdrv():
    """harness/libdrv.c: library calls driven by a script on stdin."""
    lib, app = objects()
    exe = os.path.join(scratch(), "libdrv")
    if not os.path.exists(exe):
        g = [a for a in app if os.path.basename(a) == "app_globals.o"]
        o = os.path.join(scratch(), "libdrv.o")
        _run(["gcc"] + CFLAGS + ["-std=gnu99", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "libdieharder"),
              "-c", os.path.join(HARNESS, "libdrv.c"), "-o", o])
        _run(["gcc", "-g", "-o", exe, o] + g + lib + LIBS)
    return exe
