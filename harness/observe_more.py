"""Further kinds of events: policing, reading orders, interpolation, estimates, site terms, energies."""
import hashlib
import json

import numpy as np
from observe import (CATEGORY, GMMS, IMS, Built, Watch, attempt, choose_rows, inputs, js, kind, model_class, number, quiet,
                     pick, respond, vectors)


def key(e):
    return json.dumps(e, sort_keys=True)


@kind("pol")
def policing(e, cfg):
    salt, k = cfg["salt"], 3
    out = {"first": respond(e["m"], inputs(e["s"], salt), e["opt"], k, key(e), full=True)}
    for other in ("limit", "given"):
        if other in e:
            out[other] = respond(e["m"], inputs(e[other], salt), e["opt"], k, key(e))
    return out


@kind("fill")
def filling(e, cfg):
    kw = inputs(e["s"], cfg["salt"])
    first = respond(e["m"], kw, e["opt"], cfg["rows"], key(e), full=True)
    out = {"first": first}
    if "all" in e and "x" in first:
        x = first["x"]
        out["all"] = respond(e["m"], {**kw, **{n: x.get(n) for n in e["all"]}}, e["opt"], cfg["rows"], key(e))
        out["one"] = respond(e["m"], {**kw, e["one"]: x.get(e["one"])}, e["opt"], cfg["rows"], key(e))
    return out


def digest(v):
    if isinstance(v, dict):
        return json.dumps(v, sort_keys=True)
    a = np.asarray(v, dtype=float)
    return hashlib.sha256(a.tobytes()).hexdigest()[:16] + str(a.shape)


MEASURES = ["periods", "spec_accels", "ln_stds", "pga", "ln_std_pga", "pgv", "ln_std_pgv", "pgd", "ln_std_pgd"]


def read(obj, what):
    try:
        return getattr(obj, what)
    except Exception as ex:
        return {"exc": type(ex).__name__}


@kind("read")
def reading(e, cfg):
    b = Built(e["m"], inputs(e["s"], cfg["salt"]))
    o = {"exc": b.exc}
    if b.obj is None:
        return o
    with Watch(), quiet():
        o["reads"] = []
        for what in e["reads"]:
            o["reads"].append({"what": what, "digest": digest(read(b.obj, what))})
        final = {w: read(b.obj, w) for w in MEASURES}
        o["digests"] = {w: digest(v) for w, v in final.items()}
        o["final"] = js(final)
        o["rows"] = [r + 1 for r in choose_rows(len(final["spec_accels"]), 3, key(e))]
    return o


def strided(t):
    """Every other element of an array."""
    a = np.full(2 * len(t), 0.77)
    a[::2] = t
    return a[::2]


def readonly(t):
    a = np.array(t)
    a.flags.writeable = False
    return a


SHAPES = {"scalar": lambda t: t[0], "list": list, "tuple": tuple, "array": np.array, "strided": strided, "readonly": readonly,
          "ints": lambda t: np.array([int(x) for x in t]), "int list": lambda t: [int(x) for x in t],
          "column": lambda t: np.array(t).reshape(-1, 1),
          "matrix": lambda t: np.array(t).reshape(2, -1)}


@kind("interp")
def interpolation(e, cfg):
    b = Built(e["m"], inputs(e["s"], cfg["salt"]))
    o = {"exc": b.exc}
    if b.obj is None:
        return o
    m, fn = b.obj, e["fn"]
    with Watch(), quiet():
        if e["m"] == "GA11":
            at = m.PERIODS > 0
            o["P"], o["Y"], o["S"] = js(m.PERIODS[at]), js(m.ratio[at]), js(m.ln_std[at])
            f = {"ratio": m.interp_ratio, "ln_std": m.interp_ln_std}[fn]
        else:
            o["P"], o["Y"], o["S"] = js(m.periods), js(m.spec_accels), js(m.ln_stds)
            f = {"accels": m.interp_spec_accels, "ln_accels": m.interp_ln_spec_accels, "ln_stds": m.interp_ln_stds}[fn]

        def call(f, t):
            if e["how"] == "default" or e["m"] == "GA11":
                return f(t)
            return f(t, kind=e["how"]) if pick(2, key(e)) else f(t, e["how"])

        arg = SHAPES[e["shape"]](e["T"])
        try:
            y = np.asarray(call(f, arg), dtype=float)
            o["dims"] = list(y.shape)
            o["y"] = js(y.ravel())
            o["single"] = js([float(call(f, t)) for t in e["T"]])
            if fn == "accels":
                o["other"] = js(np.exp(np.asarray(call(m.interp_ln_spec_accels, arg), dtype=float)).ravel())
        except Exception as ex:
            o["exc"] = type(ex).__name__ + " " + str(ex)[:200]
    return o


def velocity(text, rep, short=True):
    """A velocity, as maps also give them: integers of any width (whose logarithms NumPy takes in single precision, if short)."""
    v = float(text)
    types = [np.int16 if short else np.int32, np.uint16 if short else np.uint32, np.int32, np.uint32]
    return types[rep](v) if v == int(v) and rep < 4 else number(text, rep)


@kind("est")
def estimator(e, cfg):
    m, name = e["fn"].split(".")
    f = getattr(model_class(m), name)
    kw = {}
    for k, v in e["args"].items():
        if v == "omit":
            continue
        kw[k] = None if v == "None" else v if k in CATEGORY else velocity(v, pick(8, cfg["salt"], k, v), name == "calc_depth_1_0") if k == "v_s30" \
            else number(v, pick(4, cfg["salt"], k, v))
    order = {"v_s30": 0, "mag": 0, "depth_tor": 2, "dip": 1, "region": 1, "mechanism": 1, "depth_bor": 3, "depth_bot": 3,
             "depth_1_0": 2, "width": 2}
    if name == "calc_depth_bor":
        order = {"depth_tor": 0, "dip": 1, "width": 2}
    names = sorted(kw, key=lambda k: order[k])
    o = {"exc": "None"}
    with Watch(), quiet():
        try:
            if e["how"] == "position" and [order[n] for n in names] == list(range(len(names))):
                o["y"] = js(f(*[kw[n] for n in names]))
            else:
                o["y"] = js(f(**kw))
        except Exception as ex:
            o["exc"], o["msg"] = type(ex).__name__, str(ex)[:200]
    return o


@kind("site")
def site_term(e, cfg):
    cls = model_class(e["m"])
    ref = np.array([float(x) for x in e["ref"]]) if isinstance(e["ref"], list) else float(e["ref"])
    v = velocity(e["v"], pick(8, key(e)))
    z = None if e["z"] == "None" else number(e["z"], pick(4, key(e), 1))
    region = () if e["region"] == "omit" else (e["region"],)
    if region and pick(2, key(e), 2):
        call = lambda: cls.calc_site_term(ref, v, z, region=region[0])  # noqa: E731
    else:
        call = lambda: cls.calc_site_term(ref, v, z, *region)  # noqa: E731
    o = {"exc": "None"}
    with Watch(), quiet():
        try:
            o["y"] = js(np.array(call(), dtype=float))
        except Exception as ex:
            o["exc"] = type(ex).__name__ + " " + str(ex)[:200]
            return o
    Built(e["m"], inputs(e["s"], cfg["salt"]))
    with Watch(), quiet():
        o["again"] = attempt(lambda: np.array(call(), dtype=float))
    return o


@kind("energy")
def energy(e, cfg):
    b = Built(e["m"], inputs(e["s"], cfg["salt"]))
    o = {"exc": b.exc}
    if b.obj is None:
        return o
    m = b.obj
    with Watch(), quiet():
        if e["m"] == "AS96":
            x = number(e["e"], 0)
            if e["n"] == "None":
                o["y"] = attempt(m.interp, x) if pick(2, key(e)) else attempt(lambda: m.interp([x])[0])
            else:
                o["y"] = attempt(lambda: m.interp([x], [number(e["n"])])[0][0])
            o["incr"] = attempt(m.calc_ln_dur_incr, x)
        elif e["tag"] == "name":
            o["y"] = attempt(m.d5x_median, e["e"])
            o["sd"] = attempt(m.d5x_sigma, e["e"])
        else:
            o["y"] = attempt(lambda: list(m.duration_for_energy(float(e["e"]))))
    return o
