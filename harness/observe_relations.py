"""Events that relate several runs: pairs, boundaries, disguises, arrays, correlations, conditional spectra, catalogue."""
import collections
import copy
import json
import pickle
import types

import numpy as np
from observe import CATEGORY, CLASSES, GMMS, Built, Watch, attempt, inputs, js, kind, model_class, number, options, pick, quiet, respond, vectors
from observe_more import SHAPES, key


def curve(m, kw, opt=None):
    """Everything a model reports for the scenario: ln medians and deviations."""
    b = Built(m, kw, opt)
    if b.obj is None:
        return b.exc, None, None
    with Watch(), quiet():
        _, y, sd = vectors(m, b.obj)
        y, sd = list(np.asarray(y, dtype=float)), list(np.asarray(sd, dtype=float))
        if m in GMMS:
            for k in ("pga", "pgv", "pgd"):
                try:
                    y.append(float(getattr(b.obj, k)))
                    sd.append(float(getattr(b.obj, "ln_std_" + k)))
                except NotImplementedError:
                    pass
        # what is too small for a double of full precision comes in steps
        return "None", np.maximum(np.log(np.array(y)), -690.0), np.array(sd)


def floats(s):
    return {k: v if k in CATEGORY else float(v) for k, v in s.items() if not (isinstance(v, str) and v == "None")}


@kind("pair")
def pair(e, cfg):
    return {"a": respond(e["m"], floats(e["s"]), e["opt"], 0, ""), "b": respond(e["m"], floats(e["other"]), e["opt"], 0, "")}


@kind("ladder")
def ladder(e, cfg):
    return [respond(e["m"], floats(s), e["opt"], 0, "") for s in e["rungs"]]


def gap(a, b):
    """Largest differences of two curves; a difference of non-finite values is infinite."""
    def one(x, y):
        if x.shape != y.shape:
            return float("inf")
        with quiet():
            d = np.where((x == y) | (np.isnan(x) & np.isnan(y)), 0, np.abs(x - y))
        return float(np.nanmax(np.where(np.isnan(d), np.inf, d))) if d.size else 0.0

    return one(a[1], b[1]), one(a[2], b[2])


@kind("edge")
def edge(e, cfg):
    kw, opt = floats(e["s"]), options(e["m"], e["opt"])
    cs = [curve(e["m"], {**kw, e["p"]: float(v)}, opt) for v in e["at"]]
    o = {"exc": next((c[0] for c in cs if c[0] != "None"), "None")}
    if o["exc"] == "None":
        o["below"], o["above"] = [list(gap(cs[1], cs[j])) for j in (0, 2)]
        o["probes"] = [probe(e, float(v)) for v in e["at"][::2]]
    return o


def probe(e, v):
    """What the model reports where the varied parameter has the value v."""
    return {"at": v, "o": respond(e["m"], {**floats(e["s"]), e["p"]: v}, e["opt"], 0, "")}


@kind("sweep")
def sweep(e, cfg):
    """Looks for jumps of the curves between lo and hi: bisects the intervals in which an ordinate changes most abruptly."""
    kw, p, opt = floats(e["s"]), e["p"], options(e["m"], e["opt"])
    lo, hi = float(e["lo"]), float(e["hi"])
    n = 160
    memo = {}

    class Stop(Exception):
        pass

    def at(v):
        if v not in memo:
            memo[v] = curve(e["m"], {**kw, p: v}, opt)
            if memo[v][0] != "None":
                raise Stop(memo[v][0], v)
        return memo[v]

    def change(a, b, which):
        """Signed changes of the ordinates, without those that are not finite at both ends."""
        x, y = at(a)[which], at(b)[which]
        with quiet():
            return np.where(x == y, 0.0, y - x) if x.shape == y.shape else np.full(x.shape, np.inf)

    xs = np.linspace(lo, hi, n + 1)
    try:
        found = []
        for which in (1, 2):
            d = np.array([change(a, b, which) for a, b in zip(xs[:-1], xs[1:])])
            # the change that the neighbours on either side let expect: next to a kink it is that of one of them
            with quiet():
                before, after = ((np.roll(d, k, axis=0) + np.roll(d, 2 * k, axis=0)) / 2 for k in (1, -1))
                usual = (before + after) / 2
                odd = np.minimum(np.abs(d - before), np.abs(d - after))
            odd[:2], odd[-2:] = np.abs(d - after)[:2], np.abs(d - before)[-2:]
            odd = np.where(np.isnan(odd), 1e9, odd)
            for j in np.argsort(-odd.max(axis=1))[:8]:
                k = int(np.argmax(odd[j]))
                a, b = xs[j], xs[j + 1]
                slope = (usual[j, k] if 1 < j < n - 2 else after[j, k] if j < 2 else before[j, k]) / (b - a)
                for _ in range(60):
                    mid = 0.5 * (a + b)
                    if b - a < 1e-9 * max(1.0, abs(mid)) or mid in (a, b):
                        break
                    left, right = (abs(change(u, v, which)[k] - slope * (v - u)) for u, v in ((a, mid), (mid, b)))
                    if np.isnan(left) or left >= right:
                        b = mid
                    else:
                        a = mid
                gy, gs = gap(at(a), at(b))
                found.append({"at": a, "to": b, "y": js(gy), "sd": js(gs)})
    except Stop as ex:
        return {"exc": ex.args[0], "at": ex.args[1]}
    return {"exc": "None", "found": found, "probes": [probe(e, float(xs[pick(n, cfg["salt"], key(e), j)])) for j in range(8)]}


class Other(collections.UserDict):
    pass


def disguise(kw, extra, how):
    """The scenario object of a disguise."""
    from pygmm import Scenario

    def cast(t):
        return {k: v if k in CATEGORY or v is None or float(v) != int(float(v)) or v < 0 and t(0).__class__.__name__[0] == "u" else t(int(v)) if t not in (float, np.float64) else t(v)
                for k, v in kw.items()}

    if how == "extra":
        return Scenario(**{**kw, **extra})
    if how == "extra none":
        return Scenario(**{**{k: None for k in extra}, **kw})
    if how == "none given":
        return Scenario(**{**{k: None for k in Scenario.KNOWN_KEYS}, **kw})
    if how == "reversed":
        return Scenario(**dict(reversed(list({**kw, **extra}.items()))))
    if how == "sorted":
        return Scenario(**dict(sorted(kw.items(), key=lambda x: x[0][::-1])))
    if how == "dict":
        return dict(kw)
    if how == "userdict":
        return Other(kw)
    if how == "proxy":
        return types.MappingProxyType(dict(kw))
    if how == "ordereddict":
        return collections.OrderedDict(reversed(kw.items()))
    if how == "defaultdict":
        return collections.defaultdict(lambda: 7.0, kw)
    if how == "chainmap":
        k = len(kw) // 2
        items = list(kw.items())
        return collections.ChainMap(dict(items[:k]), dict(items[k:]))
    if how == "dict of a kind":
        return type("Own", (dict,), {"__missing__": lambda self, k: 7.0})(kw)
    if how == "scenario of a kind":
        return type("Own", (Scenario,), {})(**kw)
    if how == "text of a kind":
        own = type("Own", (str,), {"__repr__": lambda self: "own"})
        return Scenario(**{k: own(v) if isinstance(v, str) else v for k, v in kw.items()})
    if how == "np.longdouble":
        return Scenario(**{k: np.longdouble(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v for k, v in kw.items()})
    if how in ("update", "items", "filled later"):
        s = Scenario(**(extra if how == "items" else {}))
        if how == "update":
            s.update(kw)
        for k, v in kw.items() if how != "update" else []:
            if how == "items":
                s[k] = v
            else:
                s.setdefault(k, v)
        return s
    if how == "copy":
        return Scenario(**kw).copy()
    if how == "copy_with":
        return Scenario(**extra).copy_with(**kw)
    if how == "deepcopy":
        return copy.deepcopy(Scenario(**kw))
    if how == "pickle":
        return pickle.loads(pickle.dumps(Scenario(**kw)))
    if how == "np.str, np.bool":
        return Scenario(**{k: np.str_(v) if isinstance(v, str) else np.bool_(v) if isinstance(v, bool) else v for k, v in kw.items()})
    return Scenario(**cast({"np.int16": np.int16, "np.uint16": np.uint16, "np.uint64": np.uint64, "np.float32": np.float32, "int": int, "np.int64": np.int64, "np.int32": np.int32, "float": float, "np.float64": np.float64}[how]))


def whole_report(m, make, opt):
    o = {"exc": "None"}
    with Watch(), quiet():
        try:
            obj = model_class(m)(make(), **opt)
            per, y, sd = vectors(m, obj)
            o["y"], o["sd"], o["per"] = (js(np.asarray(v, dtype=float)) for v in (y, sd, per))
            o["x"] = js(dict(obj.scenario))
        except Exception as ex:
            o["exc"], o["msg"] = type(ex).__name__, str(ex)[:200]
    return o


@kind("inv")
def invariance(e, cfg):
    from pygmm import Scenario

    kw, extra = floats(e["s"]), floats(e["extra"])
    opt = options(e["m"], e["opt"])
    return {"base": whole_report(e["m"], lambda: Scenario(**kw), opt),
            "other": whole_report(e["m"], lambda: disguise(kw, extra, e["tag"]), opt)}


def shaped(e, values):
    return SHAPES[e["shape"]](values)


@kind("arr")
def arrays(e, cfg):
    o = {"exc": "None"}
    fn = e["fn"]
    with Watch(), quiet():
        try:
            if fn == "BJ.calc_correls":
                from pygmm.baker_jayaram_2008 import calc_correls

                T = [float(t) for t in e["T"]]
                c = float(e["cond"])
                y = np.asarray(calc_correls(shaped(e, T), c), dtype=float)
                one = [float(calc_correls(t, c)) for t in T]
            elif fn.startswith("AS96"):
                m = Built("AS96", inputs(e["s"], cfg["salt"])).obj
                T = [float(t) for t in e["T"]]
                if fn == "AS96.interp stds":
                    n = [float(x) for x in e["stds"]]
                    y = np.asarray(m.interp(shaped(e, T), shaped(e, n)), dtype=float)
                    one = [float(m.interp([t], [k])[0][0]) for k in n for t in T]
                else:
                    f = m.interp if fn == "AS96.interp" else m.calc_ln_dur_incr
                    y = np.asarray(f(shaped(e, T)), dtype=float)
                    one = [float(f(t)) for t in T]
            elif fn == "PR24.duration_model":
                from pygmm.pinilla_ramos_et_al_2024 import duration_model

                cols = [[float(x) for x in e[k]] for k in ("mag", "dist_rup", "v_s30")]
                n = max(len(c) for c in cols)
                arg = [shaped(e, c) if len(c) > 1 or n == 1 and pick(2, key(e)) else c[0] for c in cols]
                full = [c * n if len(c) == 1 else c for c in cols]
                y = np.asarray(duration_model(*arg, e["s"]["region"], e["s"]["event_type"], float(e["e"])), dtype=float)
                one = []
                for row in zip(*full):
                    kw = dict(zip(("mag", "dist_rup", "v_s30"), row), **e["s"])
                    m = Built("PR24", kw)
                    if m.obj is None:
                        o["single"] = m.exc
                        break
                    one.append(attempt(lambda: list(m.obj.duration_for_energy(float(e["e"])))))
                one = [r[j] if isinstance(r, list) else r for j in range(3) for r in one]
            else:
                cls = model_class(e["m"])
                n = len(cls.PERIODS)
                ref = np.array([float(x) for x in e["ref"]][:n])
                y = np.asarray(cls.calc_site_term(ref, float(e["v"]), 0.3, "california"), dtype=float)
                one = [float(cls.calc_site_term(np.full(n, r), float(e["v"]), 0.3, "california")[j]) for j, r in enumerate(ref)]
            o["dims"], o["y"], o["one"] = list(y.shape), js(y.ravel()), js(one)
        except Exception as ex:
            o["exc"], o["msg"] = type(ex).__name__, str(ex)[:200]
    return o


def matrix(fn, F, e, pos):
    """The matrix of a request for the ordinates at the positions pos."""
    import pygmm
    from pygmm.baker_jayaram_2008 import calc_correls

    shape = SHAPES[e["shape"]]
    f = [F[j] for j in pos]
    arg = shape(f)
    S = pygmm.Stafford2017
    B = pygmm.BaylessAbrahamson2018
    sig = {a: None if e["s" + a] == "None" else shape([float(e["s" + a][j]) for j in pos]) for a in "ESA"}
    mag = float(e["mag"])
    if fn == "BJ":
        return np.array([calc_correls(arg, t) for t in f])
    if fn == "BA18.corr":
        return B.corr(arg)
    if fn == "BA18.cov std":
        return B.cov(arg, std=shape([float(e["std"][j]) for j in pos]))
    if fn == "BA18.cov both":
        return B.cov(arg, std=shape([float(e["std"][j]) for j in pos]), component=e["component"])
    if fn == "BA18.cov scalar":
        return B.cov(arg, std=float(e["std"][0]))
    if fn == "BA18.cov component":
        return B.cov(arg, component=e["component"])
    if fn == "BA18.cov none":
        return B.cov(arg)
    if fn in ("PJ17.cov", "PJ17.cor"):
        g = S.cov if fn == "PJ17.cov" else S.cor
        names = {"sigma_" + a: v for a, v in sig.items() if v is not None}
        if mag == 6.0 and pick(2, key(e)):
            return g(arg, **names)
        return g(arg, sig["E"], sig["S"], sig["A"], mag) if pick(2, key(e), 1) else g(arg, mag=mag, **names)
    if fn == "PJ17.variances":
        return np.array(S.compute_variances(arg))
    g = {"PJ17.E": lambda a, b: S.between_event_correlation(a, b, mag), "PJ17.S": S.between_site_correlation,
         "PJ17.A": S.within_event_correlation}[fn]
    return np.array([[g(a, b) for b in f] for a in f])


@kind("cor")
def correlations(e, cfg):
    F = [float(x) for x in e["F"]]
    o = {"exc": "None"}
    with Watch(), quiet():
        try:
            y = np.asarray(matrix(e["fn"], F, e, range(len(F))), dtype=float)
            o["dims"], o["y"] = list(y.shape), js(y)
            o["part"] = js(np.asarray(matrix(e["fn"], F, e, [j - 1 for j in e["sub"]]), dtype=float))
        except Exception as ex:
            o["exc"], o["msg"] = type(ex).__name__, str(ex)[:200]
    return o


@kind("cms")
def conditional(e, cfg):
    from pygmm.baker_jayaram_2008 import calc_cond_mean_spectrum
    from pygmm.kishida_2017 import calc_cond_mean_spectrum_vector

    shape = SHAPES[e["shape"]]
    T, mu, sd = (shape([float(x) for x in e[k]]) for k in ("T", "mu", "sd"))
    o = {"exc": "None"}
    with Watch(), quiet():
        try:
            if e["fn"] == "BJ":
                r = calc_cond_mean_spectrum(T, mu, sd, float(e["tc"]), float(e["target"]))
            else:
                mask = np.array([c == "None" for c in e["cond"]])
                values = np.array([0.0 if c == "None" else float(c) for c in e["cond"]])
                if not mask.any() and pick(2, key(e)):
                    mask = False
                r = calc_cond_mean_spectrum_vector(T, mu, sd, np.ma.masked_array(values, mask))
            o["mean"], o["std"] = js(np.ma.filled(r[0], np.nan)), js(np.ma.filled(r[1], np.nan))
            if e["fn"] == "KI one":
                i = e["at"] - 1
                r = calc_cond_mean_spectrum(T, mu, sd, float(e["T"][i]), float(e["cond"][i]))
                o["bj_mean"], o["bj_std"] = js(r[0]), js(r[1])
        except Exception as ex:
            o["exc"], o["msg"] = type(ex).__name__, str(ex)[:200]
    return o


@kind("req")
def required(e, cfg):
    return respond(e["m"], inputs(e["s"], cfg["salt"]), e["opt"], 0, "", full=True)


@kind("cat")
def catalogue(e, cfg):
    import pygmm

    if e["m"] == "package":
        return {
            "models": [c.__name__ for c in pygmm.models],
            "models_are": [getattr(pygmm, c.__name__, None) is c for c in pygmm.models],
            "named": [[c.NAME, c.ABBREV] for c in (pygmm.BaylessAbrahamson2018, pygmm.Stafford2017)],
            "exported": list(pygmm.__all__),
            "exported_are": [getattr(getattr(pygmm, n, None), "__name__", "absent") for n in pygmm.__all__],
        }
    from pygmm import model

    c = model_class(e["m"])
    ps = []
    for p in c.PARAMS:
        cat = isinstance(p, model.CategoricalParameter)
        ps.append({"n": p.name, "k": "C" if cat else "N", "req": bool(p.required), "d": js(p.default),
                   "lo": None if cat else js(p.min), "hi": None if cat else js(p.max), "opts": js(p.options) if cat else []})
    o = {"cls": c.__name__, "name": c.NAME, "abbrev": c.ABBREV, "vref": js(getattr(c, "V_REF", None)), "params": ps,
         "listed": CLASSES[e["m"]]}
    if e["m"] in GMMS:
        o["table"] = js(np.asarray(c.PERIODS, dtype=float))
        # the rows as far as the class says which they are
        if hasattr(c, "INDICES_PSA") and all(hasattr(c, "INDEX_" + k) for k in ("PGA", "PGV", "PGD")):
            o["psa"] = [int(i) + 1 for i in np.arange(len(c.PERIODS))[c.INDICES_PSA]]
            for k in ("PGA", "PGV", "PGD"):
                i = getattr(c, "INDEX_" + k)
                o[k.lower()] = 0 if i is None else int(np.arange(len(c.PERIODS))[i]) + 1
    elif e["m"] == "GA11":
        o["table"] = js(np.asarray(c.PERIODS, dtype=float))
    elif e["m"] == "BA19":
        if hasattr(c, "FREQS"):
            o["table"] = js(np.asarray(c.FREQS, dtype=float))
    return o
