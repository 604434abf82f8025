"""Runs the events of a plan (made by TLC from the specification) on the real
package through its public API and records what it reports, one observation
per event.  No judgement is made here: the specification (Conform.tla) judges.

usage: observe.py PLAN OBS [--rows K] [--jobs N]
"""
import argparse
import hashlib
import json
import logging
import math
import multiprocessing
import os
import signal
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import numpy as np  # noqa: E402

CLASSES = {
    "AB06": "AtkinsonBoore2006", "AB20": "AbrahamsonBhasin2020", "AGA16": "AbrahamsonGregorAddo2016",
    "AS16": "AfshariStewart2016", "AS96": "AbrahamsonSilva1996", "ASB14": "AkkarSandikkayaBommer2014",
    "ASK14": "AbrahamsonSilvaKamai2014", "BA19": "BaylessAbrahamson2019",
    "BSSA14": "BooreStewartSeyhanAtkinson2014", "C03": "Campbell2003", "CB14": "CampbellBozorgnia2014",
    "CH14": "CoppersmithBommer2014", "CY14": "ChiouYoungs2014", "DBC14": "DerrasBardCotton2014",
    "GA11": "GulerceAbrahamson2011", "I14": "Idriss2014", "KS06": "KemptonStewart2006",
    "PR23": "PinillaRamosEtAl2023", "PR24": "PinillaRamosEtAl2024", "PZT11": "PezeshkZandiehTavakoli2011",
    "TP05": "TavakoliPezeshk05", "USER": "UserModel",
}
GMMS = {"AB06", "AGA16", "ASB14", "ASK14", "BSSA14", "C03", "CB14", "CH14", "CY14", "DBC14", "I14", "PZT11", "TP05", "USER"}
CATEGORY = {"event_type", "mechanism", "region", "site_cond", "tectonic_region", "vs_source", "is_aftershock",
            "on_hanging_wall"}
IMS = ["pga", "pgv", "pgd"]


EXTENSIBLE = [True]


def extensible():
    """Whether models still keep their results where UserModel puts its own (those names are not public)."""
    import pygmm

    m = pygmm.Campbell2003(pygmm.Scenario(mag=6, dist_rup=20))
    return all(hasattr(m, a) for a in ("_scenario", "_ln_resp", "_ln_std"))


def model_class(m):
    import pygmm

    if m == "USER" and not EXTENSIBLE[0]:
        m = "C03"
    name = CLASSES[m]
    if hasattr(pygmm, name):
        return getattr(pygmm, name)
    if m == "USER":
        from user_model import UserModel as c
    elif m == "PR23":
        from pygmm.pinilla_ramos_et_al_2023 import PinillaRamosEtAl2023 as c
    else:
        from pygmm.pinilla_ramos_et_al_2024 import PinillaRamosEtAl2024 as c
    return c


def pick(n, *key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return int.from_bytes(h[:8], "little") % max(1, n)


def number(text, rep=0):
    """The number written as a decimal string, in one of its representations."""
    v = float(text)
    if v == int(v):
        return [float(v), int(v), np.float64(v), np.int64(v)][rep % 4]
    return [v, np.float64(v)][rep % 2]


def inputs(s, salt=""):
    """Keyword arguments of Scenario for the scenario of an event."""
    out = {}
    for k, v in s.items():
        if isinstance(v, str) and v == "None":
            continue
        out[k] = v if k in CATEGORY else number(v, pick(4, salt, k, v))
    return out


def js(v):
    """A JSON value (NaN and infinities as JavaScript writes them)."""
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, np.ma.MaskedArray):
        v = v.filled(np.nan) if v.dtype.kind == "f" else v.data
    if isinstance(v, np.ndarray):
        return [js(x) for x in v.tolist()] if v.ndim else js(v.item())
    if isinstance(v, (list, tuple)):
        return [js(x) for x in v]
    if isinstance(v, dict) or hasattr(v, "items"):
        return {str(k): js(x) for k, x in v.items()}
    return "repr:" + repr(v)[:200]


# What numpy does about floating-point faults during a call.  Ignored, unless they are what is to be observed.
NOISY = bool(os.environ.get("NOISE"))
NOISE = []
CHANGED = set()


class quiet:
    """Floating-point faults are ignored, or warned of; notices a change of that by what is called."""

    def __enter__(self):
        how = "warn" if NOISY else "ignore"
        self.state = np.errstate(divide=how, over=how, invalid=how, under="ignore")
        self.state.__enter__()
        self.before = np.geterr()

    def __exit__(self, *a):
        if np.geterr() != self.before:
            CHANGED.add("floating-point handling")
        return self.state.__exit__(*a)


class Watch(logging.Handler):
    """Collects warnings and log records of a block."""

    def __init__(self):
        super().__init__(logging.WARNING)
        self.logs = []

    def emit(self, record):
        self.logs.append(record.getMessage())

    def __enter__(self):
        self.root = logging.getLogger()
        self.saved = self.root.handlers[:]
        self.root.handlers = [] if NOISY else [self]
        self.cw = warnings.catch_warnings(record=True)
        self.rec = self.cw.__enter__()
        warnings.simplefilter("always")
        self.set_filters = list(warnings.filters)
        return self

    def __exit__(self, *a):
        if list(warnings.filters) != self.set_filters:
            CHANGED.add("filters of warnings")
        if NOISY and self.root.handlers:
            CHANGED.add("handlers of the root logger")
        self.cw.__exit__(*a)
        self.root.handlers = self.saved
        self.warns = [str(w.message) for w in self.rec if w.category is UserWarning]
        if NOISY:
            NOISE.extend("%s: %s" % (w.category.__name__, str(w.message)[:200]) for w in self.rec
                         if w.category not in (UserWarning, ResourceWarning) and "/harness/" not in w.filename)
        return False


def attempt(f, *a, **k):
    """Value of a call, or the exception it raises."""
    try:
        return js(f(*a, **k))
    except Exception as e:
        return {"exc": type(e).__name__}


class Built:
    """A constructed model with what was reported while constructing it."""

    def __init__(self, m, kw, opt=None):
        from pygmm import Scenario

        self.m = m
        self.obj, self.exc, self.msg = None, "None", ""
        with Watch() as w, quiet():
            try:
                self.obj = model_class(m)(Scenario(**kw), **(opt or {}))
            except Exception as e:
                self.exc, self.msg = type(e).__name__, str(e)
        self.warns, self.logs = w.warns, w.logs


def options(m, opt, rows=None):
    """Extra constructor arguments of an event."""
    out = {}
    for k, v in opt.items():
        if isinstance(v, list):
            out[k] = np.array([float(x) for x in v])
        else:
            out[k] = float(v)
    return out


def vectors(m, obj):
    """(ordinates, values, standard deviations) as reported."""
    if m in GMMS:
        return obj.periods, obj.spec_accels, obj.ln_stds
    if m == "BA19":
        return obj.freqs, obj.eas, obj.ln_std
    if m == "GA11":
        return obj.PERIODS, obj.ratio, obj.ln_std
    if m == "AB20":
        return np.array([0.0]), np.array([obj.pgv]), np.array([obj.ln_std])
    if m == "AS96":
        return np.array([0.0]), np.array([obj.duration]), np.array([obj.std_err])
    if m in ("KS06", "AS16"):
        d, e = obj.duration, obj.std_err
        return np.arange(len(d.dtype.names)), np.array(list(d.tolist())), np.array(list(e.tolist()))
    d = np.array([obj.duration, obj.duration_plus_sigma, obj.duration_minus_sigma])
    return np.zeros(1), d[:1], np.array([np.nan])


def ims(obj):
    out = {}
    for k in IMS:
        out[k] = attempt(lambda: getattr(obj, k))
        out["sd_" + k] = attempt(lambda: getattr(obj, "ln_std_" + k))
    return out


def choose_rows(n, k, key):
    """k of n positions (0-based), a function of the key."""
    if k <= 0 or k >= n:
        return list(range(n))
    out = set()
    j = 0
    while len(out) < k:
        out.add(pick(n, key, j))
        j += 1
    return sorted(out)


KINDS = {}


def kind(*names):
    def deco(f):
        for n in names:
            KINDS[n] = f
        return f

    return deco


def respond(m, kw, opt, k, key, full=False):
    """What a model reports for the keyword arguments of a scenario: k rows (0: all)."""
    b = Built(m, kw, options(m, opt))
    o = {"exc": b.exc, "msg": b.msg[:300]}
    if full:
        o["warns"], o["logs"] = b.warns, b.logs
    if b.obj is None:
        return o
    with Watch(), quiet():
        try:
            if full:
                o["x"] = js(dict(b.obj.scenario))
            per, y, sd = vectors(m, b.obj)
            o["n"] = [len(per), len(y), len(sd)]
            rows = choose_rows(len(y), k, key)
            o["rows"] = [r + 1 for r in rows]
            o["per"] = js(np.asarray(per, dtype=float)[rows])
            o["y"] = js(np.asarray(y)[rows])
            o["sd"] = js(np.asarray(sd)[rows])
            if m in ("KS06", "AS16"):
                o["fields"] = [list(b.obj.duration.dtype.names), list(b.obj.std_err.dtype.names)]
            if m in GMMS:
                o["im"] = ims(b.obj)
            if m in ("PR23", "PR24"):
                o["pm"] = js([b.obj.duration, b.obj.duration_plus_sigma, b.obj.duration_minus_sigma])
            if m == "GA11":
                o["pga_ref"] = attempt(lambda: b.obj.scenario["pga_ref"])
        except Exception as ex:
            o["exc"] = "reading: " + type(ex).__name__
            o["msg"] = str(ex)[:300]
    return o


@kind("med", "fin")
def observe_model(e, cfg):
    kw = inputs(e["s"], cfg["salt"])
    return respond(e["m"], kw, e["opt"], cfg["rows"] if e["k"] != "fin" else 0, json.dumps(e, sort_keys=True))


def process():
    """What belongs to the process, and not to the package: name -> digest of its state."""
    import builtins
    import decimal
    import gc
    import locale
    import math
    import random
    import resource
    import socket
    import threading

    import scipy.special

    def d(x):
        return hashlib.sha256(repr(x).encode()).hexdigest()[:10]

    root = logging.getLogger()
    return {"floating-point handling": d(sorted(np.geterr().items())), "print options": d(sorted(np.get_printoptions().items())),
            "filters of warnings": d(warnings.filters), "showing of warnings": d(warnings.showwarning),
            "random": d(random.getstate()), "numpy.random": d(np.random.get_state()[1].tobytes() + bytes([np.random.get_state()[2] % 256])),
            "directory": os.getcwd(), "environment": d(sorted(os.environ.items())), "search path": d(sys.path),
            "logging": d((root.level, root.handlers, logging.root.manager.disable)), "hooks": d((sys.excepthook, sys.gettrace())),
            "decimal": d(decimal.getcontext()), "recursion": d(sys.getrecursionlimit()), "output": d((id(sys.stdout), id(sys.stderr))),
            "handling of errors in scipy.special": d(sorted(scipy.special.geterr().items())),
            "handling of signals": d([signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM)]),
            "collection of garbage": d((gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count())),
            "locale": d(locale.setlocale(locale.LC_ALL)), "time out": d(socket.getdefaulttimeout()),
            "threads": d((threading.active_count(), sys.getswitchinterval(), threading.stack_size())), "mask of files": d(umask()),
            "limits": d([resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_CORE)]),
            "priority": d((os.nice(0), sorted(os.sched_getaffinity(0)))),
            "names of other modules": d([sorted((k, id(v)) for k, v in vars(x).items()) for x in (builtins, math)]
                                        + [id(getattr(np, k)) for k in ("exp", "log", "interp", "sqrt", "array", "asarray", "isscalar", "loadtxt", "seterr")]
                                        + [id(getattr(json, k)) for k in ("loads", "dumps")] + [id(warnings.warn)]),
            "files": d(sorted(x for p in SCRATCH for x in tree(p)))}


SCRATCH = [x for x in os.environ.get("SCRATCH", "").split(":") if x]


def tree(path):
    """Names and sizes of all that is in a directory."""
    return [(os.path.join(p, n), os.stat(os.path.join(p, n)).st_size if n in names else -1)
            for p, dirs, names in os.walk(path) for n in dirs + names]


def umask():
    m = os.umask(0o77)
    os.umask(m)
    return m


def noisily(f, e, cfg):
    """An observation with what else the calls did: warnings other than of policing, output, changes of the process."""
    import contextlib
    import io

    del NOISE[:]
    CHANGED.clear()
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        before = process()
        o = f(e, cfg)
        after = process()
    o["noise"] = sorted(set(NOISE)) + o.get("noise", [])
    o["printed"] = out.getvalue()[:300] + o.get("printed", "")
    o["process"] = sorted({k for k in before if before[k] != after[k]} | CHANGED) + o.get("process", [])
    return o


IMPORT = """
import json, os, sys, warnings
sys.path.insert(0, %r)
import observe
with warnings.catch_warnings(record=True) as rec:
    warnings.simplefilter("always")
    import numpy, scipy, scipy.interpolate, numpy.typing
before = observe.process()
with warnings.catch_warnings(record=True) as rec:
    warnings.simplefilter("always")
    kept = observe.process()["filters of warnings"]
    import gc
    import %s
    gc.collect()
    same = kept == observe.process()["filters of warnings"]
after = observe.process()
changed = [k for k in sorted(before) if before[k] != after[k]] + ([] if same else ["filters of warnings"])
noise = ["%%s: %%s" %% (w.category.__name__, str(w.message)[:200]) for w in rec if "/pygmm/" in w.filename + str(w.message)]
print("REPORT" + json.dumps({"process": changed, "noise": noise, "files": os.listdir(".")}))
"""


@kind("import")
def importing(e, cfg):
    """A module imported in an interpreter of its own, in an empty directory."""
    import subprocess
    import tempfile

    with tempfile.TemporaryDirectory(dir=os.environ.get("ASIDE")) as d:
        # nothing is set in its environment that the package may be interested in; its directories are empty
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "PYTHONPATH", "PYTHONDONTWRITEBYTECODE", "LANG", "PYGMM_REPO")}
        for k in ("HOME", "TMPDIR", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "MPLCONFIGDIR", "WORK"):
            env[k] = os.path.join(d, k.lower())
            os.mkdir(env[k])
        env["SCRATCH"] = d
        p = subprocess.run([sys.executable, "-c", IMPORT % (os.path.dirname(os.path.abspath(__file__)), e["tag"])],
                           capture_output=True, text=True, cwd=env["WORK"], env=env, timeout=cfg["limit"])
    text, _, report = p.stdout.partition("REPORT")
    o = json.loads(report) if report else {"process": [], "noise": [p.stderr[-500:]], "files": []}
    o["printed"] = (text + p.stderr)[:300] + ("files: " + " ".join(o["files"]) if o["files"] else "")
    return o


sys.modules.setdefault("observe", sys.modules[__name__])
import observe_more  # noqa: E402,F401  (the other kinds of events)
import observe_relations  # noqa: E402,F401
import observe_sessions  # noqa: E402,F401


class Late(BaseException):
    """An event took too long."""


def late(*a):
    raise Late("an event took too long")


def run(job):
    i, line, cfg = job
    e = json.loads(line)
    signal.signal(signal.SIGALRM, late)
    signal.alarm(cfg["limit"])
    try:
        o = {"skipped": True} if e.get("m") == "USER" and not EXTENSIBLE[0] else noisily(KINDS[e["k"]], e, cfg) if NOISY else KINDS[e["k"]](e, cfg)
    except (Exception, Late):  # nothing to observe, which the specification judges
        import traceback

        o = {"driver": traceback.format_exc()[-1500:]}
    signal.alarm(0)
    e["i"] = i
    e["o"] = o
    return json.dumps(e)


def settle():
    """Works in an empty directory, which is also that of the user and of temporary files: what is written is noticed."""
    import atexit
    import shutil
    import tempfile

    os.environ["ASIDE"] = tempfile.gettempdir()
    d = tempfile.mkdtemp()
    me = os.getpid()
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True) if os.getpid() == me else None)
    for k in ("HOME", "TMPDIR", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "MPLCONFIGDIR", "WORK"):
        os.environ[k] = os.path.join(d, k.lower())
        os.mkdir(os.environ[k])
    tempfile.tempdir = None
    os.chdir(os.environ["WORK"])
    SCRATCH.append(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("plan")
    ap.add_argument("obs")
    ap.add_argument("--rows", type=int, default=6)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--limit", type=int, default=60)
    ap.add_argument("--salt", default="1")
    a = ap.parse_args()
    cfg = {"rows": a.rows, "salt": a.salt, "limit": a.limit}
    lines = sorted(set(open(a.plan).read().split("\n")) - {""})
    a.obs = os.path.abspath(a.obs)
    if NOISY:
        settle()
    import pygmm  # noqa: F401

    jobs = [(i + 1, x, cfg) for i, x in enumerate(lines)]
    # one whole part after another: neighbours in the sorted plan share a model
    # sessions start in a process that has evaluated nothing
    apart = any('"k":"session"' in x or '"k":"threads"' in x for x in lines[:3])
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(1) as pool:
        EXTENSIBLE[0] = pool.apply(extensible)
    with ctx.Pool(a.jobs, maxtasksperchild=1 if apart else None) as pool, open(a.obs, "w") as f:
        for r in pool.imap(run, jobs, chunksize=1 if apart else max(1, min(32, len(jobs) // (4 * a.jobs)))):
            f.write(r + "\n")


if __name__ == "__main__":
    main()
