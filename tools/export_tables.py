"""One-off: freeze the coefficient tables of the specification (spec/tables).

The tables are the specification's own copy of the published coefficients, taken from
the reviewed and repaired tree; no check reads coefficients from /repo.
"""
import json, os, sys
import numpy as np
D = sys.argv[1] + "/src/pygmm/data/"
O = os.path.join(os.path.dirname(__file__), "..", "spec", "tables/")
def rows(name, skip):
    a = np.genfromtxt(D + name, skip_header=skip, delimiter=",", names=True, case_sensitive=True)
    return [{n: (float(r[n]) if r[n] == r[n] else None) for n in a.dtype.names} for r in a]
def dump(name, v):
    with open(O + name + ".json", "w") as f:
        if isinstance(v, list):
            f.write("[\n" + ",\n".join(json.dumps(x) for x in v) + "\n]\n")
        else:
            f.write("{\n" + ",\n".join(json.dumps(k) + ": " + json.dumps(x) for k, x in v.items()) + "\n}\n")
for out, name, skip in [
    ("ASK14", "abrahamson_silva_kamai_2014.csv", 2), ("BSSA14", "boore_stewart_seyhan_atkinson-2014.csv", 2),
    ("CB14", "campbell_bozorgnia_2014.csv", 2), ("CY14", "chiou_youngs_2014.csv", 2),
    ("I14s", "idriss_2014-small.csv", 2), ("I14l", "idriss_2014-large.csv", 2),
    ("AB06bc", "atkinson_boore_2006-bc.csv", 2), ("AB06rock", "atkinson_boore_2006-rock.csv", 2),
    ("AB06sf", "atkinson_boore_2006-sf.csv", 2), ("AB06site", "atkinson_boore_2006-site.csv", 2),
    ("C03", "campbell_2003.csv", 1), ("PZT11", "pezeshk_zandieh_tavakoli_2011.csv", 1), ("TP05", "tavakoli_pezeshk_2005.csv", 1),
    ("ASBjb", "akkar-sandikkaya-bommer-2014-dist_jb.csv", 2), ("ASBhyp", "akkar-sandikkaya-bommer-2014-dist_hyp.csv", 2),
    ("ASBepi", "akkar-sandikkaya-bommer-2014-dist_epi.csv", 2), ("AGA16", "abrahamson_gregor_addo_2016.csv", 1),
    ("CH14", "coppersmith_bommer_2014.csv", 1), ("BA19", "bayless_abrahamson_2019.csv", 2),
    ("GA11", "gulerce_abrahamson_2011-coefficients.csv", 2), ("BA18", "bayless_abrahamson_2018.csv", 3)]:
    dump(out, rows(name, skip))
dump("DBC14", json.load(open(D + "derras_bard_cotton_2014.json")))
dump("PJS17", json.load(open(D + "stafford_2017.json")))
# conditional coefficients of the Pinilla-Ramos models are in their source files
sys.path.insert(0, sys.argv[1] + "/src")
import ast
def lits(path):
    return ast.parse(open(sys.argv[1] + "/src/pygmm/" + path).read())
t = {}
for n in ast.walk(lits("pinilla_ramos_et_al_2023.py")):
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.value, ast.List):
        t[n.targets[0].slice.value] = ast.literal_eval(n.value)
t["energy"] = [round(0.05 + 0.05 * i, 2) for i in range(19)]
dump("PR23", [{k: float(v[i]) for k, v in t.items()} for i in range(19)])
t = []
for n in ast.walk(lits("pinilla_ramos_et_al_2024.py")):
    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Call):
        t.append((n.lineno, n.targets[0].id, [float(x) for x in ast.literal_eval(n.value.value.args[0])]))
t.sort()
for j, ev in enumerate(["interface", "slab"]):
    cols = {k: v for _, k, v in t[7 * j: 7 * j + 7]}
    assert sorted(cols) == sorted(["c_median", "a0", "m1", "r1", "v1", "rho_c_d575", "sigma_c"]) and {len(v) for v in cols.values()} == {18}
    dump("PR24" + ev, [dict({k: v[i] for k, v in cols.items()}, energy=round(0.1 + 0.05 * i, 2)) for i in range(18)])
