"""Sessions: sequences of operations on scenarios, models and the caller's own objects, and concurrent ones."""
import copy
import pickle

import numpy as np
from observe import Watch, js, kind, pick, quiet
from observe_relations import floats


def one(v, cat=False):
    if v == "None":
        return None
    if isinstance(v, bool):
        return v
    try:
        return float(v)
    except ValueError:
        return v


def plain(s):
    return {k: one(v) for k, v in s.items()}


def duplicate(s, how):
    from pygmm import Scenario

    return {"copy": lambda: s.copy(), "copy.copy": lambda: copy.copy(s), "deepcopy": lambda: copy.deepcopy(s),
            "pickle": lambda: pickle.loads(pickle.dumps(s)), "again": lambda: Scenario(**s), "copy_with": lambda: s.copy_with(),
            }[how]()


@kind("scen")
def scenarios(e, cfg):
    from pygmm import Scenario

    heap, out = [], []

    def do(o):
        op = o["op"]
        s = heap[o["at"] - 1] if o["at"] else None
        if op == "new":
            heap.append(Scenario(**plain(o["s"])))
        elif op == "with":
            heap.append(s.copy_with(**plain(o["s"])))
        elif op == "dup":
            heap.append(duplicate(s, o["how"]))
        elif op == "set":
            if o["how"] == "update":
                s.update({o["key"]: one(o["v"])})
            else:
                s[o["key"]] = one(o["v"])
        elif op == "del":
            if o["how"] == "pop":
                s.pop(o["key"])
            else:
                del s[o["key"]]
        elif op == "item":
            return s[o["key"]]
        elif op == "attr":
            return getattr(s, o["key"])
        elif op == "has":
            return hasattr(s, o["key"])
        elif op == "same":
            t = heap[o["to"] - 1]
            if (s == t) is (s != t):
                return "inconsistent"
            return s == t
        elif op == "print":
            if not (isinstance(repr(s), str) and isinstance(str(s), str) and f"{s}"):
                raise TypeError("not printed")
        return None

    for o in e["ops"]:
        with Watch():
            n = len(heap)
            try:
                v = do(o)
                r = {"exc": "None", "v": "None" if v is None else js(v)}
            except Exception as ex:
                r = {"exc": type(ex).__name__, "msg": str(ex)[:200]}
                del heap[n:]
            r["heap"] = [{k: "None" if v is None else js(v) for k, v in s.items()} for s in heap]
            r["kinds"] = [type(s).__name__ for s in heap]
            out.append(r)
    return {"steps": out}


# ---- sessions -----------------------------------------------------------------
import collections  # noqa: E402
import hashlib  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import os  # noqa: E402
import sys  # noqa: E402
import threading  # noqa: E402
import types  # noqa: E402

from observe import GMMS, model_class  # noqa: E402

WHATS = {"BA19": ["eas", "ln_eas", "freqs", "ln_std"], "GA11": ["ratio", "ln_std"], "AB20": ["pgv", "ln_std"],
         "AS96": ["duration", "std_err"], "KS06": ["duration", "std_err"], "AS16": ["duration", "std_err"],
         "PR23": ["duration", "duration_plus_sigma", "duration_minus_sigma"],
         "PR24": ["duration", "duration_plus_sigma", "duration_minus_sigma"]}
for _m in GMMS:
    WHATS[_m] = ["periods", "spec_accels", "ln_stds", "pga", "ln_std_pga", "pgv", "ln_std_pgv", "pgd", "ln_std_pgd"]
WHATS["AGA16"] = WHATS["AGA16"] + ["adjust_c1"]


def raw(v):
    """Bytes that stand for a value."""
    if isinstance(v, np.ma.MaskedArray):
        return b"masked" + raw(np.ma.getdata(v)) + raw(np.ma.getmaskarray(v)) + repr((v.fill_value, v.hardmask)).encode()
    if isinstance(v, (np.ndarray, np.generic)):
        a = np.asarray(v)
        if a.dtype.names:
            return b"rec" + b"".join(k.encode() + raw(a[k]) for k in a.dtype.names)
        return ("%s%r" % (a.dtype, a.shape)).encode() + (repr(a.tolist()).encode() if a.dtype.hasobject else a.tobytes())
    if isinstance(v, (types.MappingProxyType, dict)) or hasattr(v, "items"):
        return b"{" + b",".join(str(k).encode() + b":" + raw(v[k]) for k in sorted(v, key=str)) + b"}"
    if isinstance(v, (list, tuple)):
        return b"[" + b",".join(raw(x) for x in v) + b"]"
    return (type(v).__name__ + repr(v)).encode()


def digest(v):
    return hashlib.sha256(raw(v)).hexdigest()[:12]


def ask(f):
    """Digest of the result of a call (or its exception), and the result."""
    try:
        v = f()
    except Exception as ex:
        return "exc:" + type(ex).__name__, None
    return digest(v), v


def reports(m, obj, backwards=False):
    """Digest of everything that a model reports."""
    if obj is None:
        return "none"
    parts = [ask(lambda: getattr(obj, w))[0] for w in (WHATS[m][::-1] if backwards else WHATS[m])]
    if backwards:
        parts.reverse()
    parts.append(ask(lambda: dict(obj.scenario))[0])
    if m == "PR24":
        parts += [ask(lambda: obj.d5x_median("D5-95"))[0], ask(lambda: obj.duration_for_energy(0.5))[0]]
    if m == "PR23":
        parts.append(ask(lambda: obj.duration_for_energy(0.5))[0])
    if m in GMMS:
        parts += [ask(lambda: obj.interp_ln_spec_accels([0.9, 0.06]))[0], ask(lambda: obj.interp_ln_stds([1.0, 0.25]))[0],
                  ask(lambda: obj.interp_spec_accels([0.31, 2.0], kind="nearest"))[0], ask(lambda: obj.interp_ln_stds([0.31, 2.0], kind="nearest"))[0]]
    if m == "GA11":
        parts += [ask(lambda: obj.interp_ratio([0.9, 0.06]))[0], ask(lambda: obj.interp_ln_std([0.9, 0.06]))[0]]
    if m == "AS96":
        parts.append(ask(lambda: obj.interp([0.5, 0.8], stds=np.array([0.0, 1.0])))[0])
    return hashlib.sha256(repr(parts).encode()).hexdigest()[:12]


def container(values, how):
    if how == "masked":
        return np.ma.masked_array([0.0 if v == "None" else float(v) for v in values], [v == "None" for v in values])
    return {"list": list, "tuple": tuple, "array": np.array}[how]([float(v) for v in values])


def mapping(s, how):
    """What is passed to a model, and the caller's object behind it."""
    from observe_relations import Other
    from pygmm import Scenario

    kw = floats(s)
    if how == "scenario":
        c = Scenario(**kw)
    elif how == "userdict":
        c = Other(kw)
    else:
        c = dict(kw)
    return (types.MappingProxyType(c) if how == "proxy" else c), c


def arguments(o):
    """The caller's objects for a call: name -> object, in the order of the names."""
    return {k: container(v, "masked" if k == "masked" else o["how"]) for k, v in sorted(o["args"].items())}


def number_of(a):
    return float(a[0])


def call(o, a):
    import pygmm
    from pygmm.baker_jayaram_2008 import calc_cond_mean_spectrum, calc_correls
    from pygmm.kishida_2017 import calc_cond_mean_spectrum_vector
    from pygmm.pinilla_ramos_et_al_2024 import duration_model

    B, S = pygmm.BaylessAbrahamson2018, pygmm.Stafford2017
    f = o["what"]
    if f == "BJ.calc_correls":
        return calc_correls(a["T"], number_of(a["cond"]))
    if f == "BJ.cms":
        return calc_cond_mean_spectrum(a["T"], a["mu"], a["sd"], number_of(a["cond"]), number_of(a["target"]))
    if f == "KI.cms":
        return calc_cond_mean_spectrum_vector(a["T"], a["mu"], a["sd"], a["masked"])
    if f == "BA18.corr":
        return B.corr(a["F"])
    if f == "BA18.cov":
        return B.cov(a["F"], std=a["std"])
    if f == "BA18.cov component":
        return B.cov(a["F"], component="phi_s")
    if f == "PJ17.cov":
        return S.cov(a["F"], a["sE"], a["sS"], a["sA"], 6.5)
    if f == "PJ17.cor":
        return S.cor(a["F"], sigma_E=a["sE"], sigma_S=a["sS"], sigma_A=a["sA"])
    if f == "PJ17.variances":
        return S.compute_variances(a["F"])
    if f == "PR24.duration_model":
        return duration_model(a["mag"], a["dist_rup"], a["v_s30"], "Japan", "slab", 0.75)
    cls = model_class(o["m"])
    ref = a["ref"] if isinstance(a["ref"], np.ndarray) else np.array(a["ref"])
    return cls.calc_site_term(ref[: len(cls.PERIODS)], number_of(a["v"]), 0.3, "california")


def interpolate(o, obj, T):
    f = getattr(obj, o["what"])
    if o["m"] in ("PR23", "PR24"):
        return f(number_of(T))
    return f(T, kind=o["way"]) if o["way"] else f(T)


def opts(o):
    """Extra constructor arguments: arrays are the caller's objects."""
    return {k: np.array([float(x) for x in v]) if isinstance(v, list) else float(v) for k, v in sorted(o["opt"].items())}


def construct(m, passed, opt):
    try:
        return model_class(m)(passed, **opt)
    except Exception:
        return None


def spoil(v):
    """Changes a returned object in place, as far as it can be."""
    if isinstance(v, (tuple, list)):
        for x in v:
            spoil(x)
    elif isinstance(v, np.ma.MaskedArray) or (isinstance(v, np.ndarray) and v.flags.writeable):
        try:
            if v.dtype.names:
                for k in v.dtype.names:
                    v[k] = -9.75
            else:
                v[...] = -9.75
        except (ValueError, TypeError):
            pass
    elif isinstance(v, dict):
        v.clear()


def alter(c):
    """The caller changes an object of theirs."""
    if isinstance(c, np.ma.MaskedArray):
        c.data[...] = c.data * -1.7 + 0.3
        c.mask = ~np.ma.getmaskarray(c)
    elif isinstance(c, np.ndarray):
        c *= -1.7
    elif isinstance(c, list):
        c.reverse()
        c.append(3.3)
    elif hasattr(c, "items"):
        for k in list(c):
            v = c[k]
            if isinstance(v, bool):
                c[k] = not v
            elif isinstance(v, float):
                c[k] = v * 0.93


def pristine(f):
    """Result of f in a process that has evaluated nothing before."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = json.dumps(f()).encode()
            while out:
                out = out[os.write(w, out):]
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        part = os.read(r, 1 << 16)
        if not part:
            break
        data += part
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("a process ended without an answer")
    return json.loads(data)


def objects(o):
    """The caller's objects of a construction, question or call, as new."""
    if o["op"] == "build":
        return [mapping(o["s"], o["how"])[1]] + [v for v in opts(o).values() if isinstance(v, np.ndarray)]
    return list(arguments(o).values()) if o["op"] in ("interp", "call") else []


def handed(o, objs):
    """The objects as they are passed in: a mapping and the options, or the arguments by name."""
    if o["op"] == "build":
        arrays = iter(objs[1:])
        return (types.MappingProxyType(objs[0]) if o["how"] == "proxy" else objs[0],
                {k: next(arrays) if isinstance(v, np.ndarray) else v for k, v in opts(o).items()})
    return dict(zip(sorted(o["args"]), objs))


def aged(o, versions):
    objs = objects(o)
    for c, n in zip(objs, versions):
        for _ in range(n):
            alter(c)
    return handed(o, objs)


def alone(b, o=None, vb=(), vo=()):
    """Digest of a construction, or of a question to its model, or of a call; v: how often each object was changed before."""
    with Watch(), quiet():
        obj = None
        if b is not None:
            obj = construct(b["m"], *aged(b, vb))
            if o is None:
                return reports(b["m"], obj)
        if o["op"] == "read":
            return ask(lambda: getattr(obj, o["what"]))[0]
        if o["op"] == "interp":
            return ask(lambda: interpolate(o, obj, aged(o, vo)["T"]))[0]
        return ask(lambda: call(o, aged(o, vo)))[0]


def jobs(ops):
    """What is to be evaluated afresh for each operation."""
    builds, versions = [], []
    for o in ops:
        n = len(objects(o))
        now = [versions[o["cell"] - 1 + i] if o["cell"] else 0 for i in range(n)]
        if not o["cell"]:
            versions += [0] * n
        if o["op"] == "build":
            builds.append((o, now))
            yield o, None, now, []
        elif o["op"] in ("read", "interp"):
            b, was = builds[o["at"] - 1]
            yield b, o, was, now
        elif o["op"] in ("dup", "send"):
            b, was = builds[o["at"] - 1]
            if o["op"] == "dup":
                builds.append(builds[o["at"] - 1])
            yield b, None, was, []
        elif o["op"] == "call":
            yield None, o, [], now
        else:
            if o["op"] == "change":
                versions[o["at"] - 1] += 1
            yield None


def twin(obj, how):
    """A copy of a model, or why there is none."""
    if obj is None:
        return None
    try:
        if how.startswith("pickle"):
            return pickle.loads(pickle.dumps(obj, protocol=int(how[6:] or pickle.DEFAULT_PROTOCOL)))
        return {"copy": copy.copy, "deepcopy": copy.deepcopy}[how](obj)
    except Exception as ex:
        return "no copy: " + type(ex).__name__


class Far:
    """A process that branched off before anything was evaluated, and answers what is sent to it as if nothing had been."""

    def __init__(self):
        (self.r, w2), (r2, self.w) = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.r)
                os.close(self.w)
                while True:
                    data = self.exactly(r2, 8)
                    if not data:
                        break
                    m, sent = pickle.loads(self.exactly(r2, int.from_bytes(data, "big")))
                    # one process for each: nothing stays
                    try:
                        out = pristine(lambda: restored(m, sent))
                    except RuntimeError:
                        out = "no answer"
                    os.write(w2, out.encode().ljust(64))
            finally:
                os._exit(0)
        os.close(w2)
        os.close(r2)

    @staticmethod
    def exactly(fd, n):
        data = b""
        while len(data) < n:
            part = os.read(fd, n - len(data))
            if not part:
                return b""
            data += part
        return data

    def ask(self, m, sent):
        msg = pickle.dumps((m, sent))
        msg = len(msg).to_bytes(8, "big") + msg
        while msg:
            msg = msg[os.write(self.w, msg):]
        return self.exactly(self.r, 64).decode().strip()

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)


def restored(m, sent):
    with Watch(), quiet():
        return reports(m, pickle.loads(sent))


def told(model):
    return "gone" if model is None else reports(*model[:2])


@kind("session")
def session(e, cfg):
    memo, fresh = {}, []
    for job in jobs(e["ops"]):       # before this process evaluates anything
        if job is None:
            fresh.append("")
            continue
        key = json.dumps(job, sort_keys=True)
        if key not in memo:
            memo[key] = pristine(lambda: alone(*job))
        fresh.append(memo[key])
    far = Far() if any(o["op"] == "send" for o in e["ops"]) else None
    cells, models, steps = [], [], []
    for o, base in zip(e["ops"], fresh):
        made, res = [], ""
        with Watch(), quiet():
            objs = objects(o)
            if o["cell"]:
                objs = cells[o["cell"] - 1 : o["cell"] - 1 + len(objs)]
            else:
                made = [digest(x) for x in objs]
                cells += objs
            if o["op"] == "build":
                models.append((o["m"], construct(o["m"], *handed(o, objs)), len(models)))
                res = told(models[-1])
            elif o["op"] == "read":
                res = ask(lambda: getattr(models[o["at"] - 1][1], o["what"]))[0]
            elif o["op"] == "scribble":
                spoil(ask(lambda: getattr(models[o["at"] - 1][1], o["what"]))[1])
            elif o["op"] == "change":
                alter(cells[o["at"] - 1])
            elif o["op"] == "forget":
                models[o["at"] - 1] = None
            elif o["op"] == "crowd":
                for s in o["args"]["crowd"]:
                    told((o["m"], construct(o["m"], mapping(s, "dict")[1], opts(o))))
            elif o["op"] == "dup":
                m, obj, kin = models[o["at"] - 1]
                models.append((m, twin(obj, o["how"]), kin if o["how"] == "copy" else len(models)))
                res = told(models[-1])
                obj = None
            elif o["op"] == "tamper":
                _, obj, kin = models[o["at"] - 1]
                if obj is not None:
                    alter(obj.scenario)
                obj = None
                models = [None if m is not None and m[2] == kin else m for m in models]
            elif o["op"] == "send":
                sent = ask(lambda: pickle.dumps(models[o["at"] - 1][1]))
                res = far.ask(o["m"], sent[1]) if sent[1] is not None else sent[0]
            elif o["op"] in ("interp", "call"):
                a = handed(o, objs)
                if o["op"] == "interp":
                    res, v = ask(lambda: interpolate(o, models[o["at"] - 1][1], a["T"]))
                else:
                    res, v = ask(lambda: call(o, a))
                if o["spoil"]:
                    spoil(v)
                v = None
            steps.append({"made": made, "res": res, "fresh": base, "cells": [digest(c) for c in cells],
                          "models": [told(m) for m in models]})
    if far:
        far.close()
    return {"steps": steps}


# ---- two programs, interleaved --------------------------------------------------
def program(o, out, j):
    with quiet():
        if o["op"] == "call":
            a = arguments(o)
            out[j] = ask(lambda: call(o, a))[0]
            return
        obj = o["model"] if "model" in o else construct(o["m"], mapping(o["s"], "scenario")[0], opts(o))
        out[j] = reports(o["m"], obj, backwards=bool(j and "model" in o))


def inside(frame):
    f = frame.f_code.co_filename
    return "/pygmm/" in f and "/verif/" not in f


def tracer(at):
    """A trace function that calls at() at every line of the package."""
    # (tracing single operations of two threads ends Python 3.12 with a fault)
    def local(frame, event, arg):
        if event == "line":
            at(frame)
        return local

    def start(frame, event, arg):
        if event == "call" and inside(frame):
            return local
        return None

    return start


def points(o):
    """Where a program can be stopped: one number of an event for every place in the code."""
    seen, count = {}, [0]

    def at(frame):
        count[0] += 1
        key = "%s:%d" % (frame.f_code.co_filename, frame.f_lineno)
        seen.setdefault(key, []).append(count[0])

    with Watch():
        sys.settrace(tracer(at))
        try:
            program(o, [None], 0)
        finally:
            sys.settrace(None)
    return seen


def interleaved(first, second, n, n2):
    """Runs the first program to its n-th event, then the second (to its n2-th, if any), then the first, then the second."""
    out = [None, None]
    turn = [threading.Event(), threading.Event()]     # a program may run
    count = [0, 0]

    def stop(j, other):
        turn[j].clear()
        turn[other].set()
        turn[j].wait(0.5)    # the other may need a lock that this one holds: then go on

    def run(j, o, where):
        turn[j].wait(20)

        def at(frame):
            count[j] += 1
            if count[j] == where:
                stop(j, 1 - j)

        if where:
            sys.settrace(tracer(at))
        try:
            program(o, out, j)
        finally:
            sys.settrace(None)
            turn[1 - j].set()

    with Watch():
        ts = [threading.Thread(target=run, args=(0, first, n)), threading.Thread(target=run, args=(1, second, n2))]
        turn[0].set()
        for t in ts:
            t.start()
        for t in ts:
            t.join(40)
    return out


@kind("threads")
def threads(e, cfg):
    a, b = e["ops"]
    for x in ("baker_jayaram_2008", "kishida_2017", "pinilla_ramos_et_al_2023", "pinilla_ramos_et_al_2024"):
        importlib.import_module("pygmm." + x)    # not in the middle of a program
    for o in e["ops"]:
        if o["m"]:
            model_class(o["m"])
    base = [pristine(lambda: alone(a) if a["op"] == "build" else alone(None, a)),
            pristine(lambda: alone(b) if b["op"] == "build" else alone(None, b))]

    def ready():
        """The programs; both ask one model where the event says so, which nobody has asked before."""
        if e["tag"] != "one model":
            return a, b
        with Watch(), quiet():
            m = construct(a["m"], mapping(a["s"], "scenario")[0], opts(a))
        return dict(a, model=m), dict(b, model=m)

    places = pristine(lambda: points(ready()[0]))
    others = [n for v in pristine(lambda: points(ready()[1])).values() for n in v]
    places = [v[pick(len(v), k, cfg["salt"], json.dumps(a, sort_keys=True))] for k, v in sorted(places.items())]
    if e["most"] and len(places) > e["most"]:
        places = sorted(places, key=lambda n: pick(1 << 40, n, e["m"], cfg["salt"]))[: e["most"]]
    runs = []
    for i, n in enumerate(places):
        n2 = others[pick(len(others), i, n, cfg["salt"])] if i % 3 == 2 and others else 0
        r = pristine(lambda: interleaved(*ready(), n, n2))
        if r != base:
            runs.append({"at": [n, n2], "ran": r})
    return {"alone": base, "runs": runs, "n": len(places)}
