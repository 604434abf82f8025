"""The parts of every check, per tier."""

CHECKS = {}
NGA = "ASK14,BSSA14,CB14,CY14,I14"
ALL = "AB06,AB20,AGA16,AS16,AS96,ASB14,ASK14,BA19,BSSA14,C03,CB14,CH14,CY14,DBC14,GA11,I14,KS06,PR23,PR24,PZT11,TP05"
GMMS = "AB06,AGA16,ASB14,ASK14,BSSA14,C03,CB14,CH14,CY14,DBC14,I14,PZT11,TP05"
FILLED = "ASK14,BA19,CB14,CY14"
SITED = "ASK14,BSSA14,CB14,CY14"

ASSUMPTIONS = {
    "*": [
        "the equations of spec/*.tla and the coefficients of spec/tables are the published ones",
        "reals are IEEE doubles on both sides, compared to 1e-8 in natural-log units unless the judging module says otherwise",
        "inputs outside the explored plan behave as those explored",
    ]
}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f

    return deco


def equations(c, deep, models, samples, bases=8, kind="med"):
    """Scenarios of the models: bases with every one-parameter change, and samples."""
    if not deep:
        c.part(env={"KIND": kind, "MODELS": models, "NSAMPLES": samples, "NBASES": bases, "DEPTH": 1}, rows=8)
        c.part(env={"KIND": kind, "MODELS": models, "NSAMPLES": 2, "NBASES": 2, "DEPTH": 2}, rows=5, name="pairs")
        return
    c.part(env={"KIND": kind, "MODELS": models, "NSAMPLES": samples, "NBASES": 12, "DEPTH": 1}, rows=0)
    for m in models.split(","):
        c.part(env={"KIND": kind, "MODELS": m, "NSAMPLES": 6, "NBASES": 6, "DEPTH": 2}, rows=8, name="pairs " + m)
    c.part(env={"KIND": kind, "MODELS": models, "NSAMPLES": samples * 2, "NBASES": 0}, rows=12, batches=4)


@check("C01")
def stores(c, deep):
    c.part("Heaps", env={"MODE": "keys"}, name="every key")
    c.part("Heaps", env={"MODE": "all", "DEPTH": 4 if deep else 3}, name="every short sequence")
    c.part("Heaps", env={"MODE": "walk", "WALKS": 4000 if deep else 1500, "LENGTH": 30}, name="walks", batches=4 if deep else 1)


@check("C02")
def policing(c, deep):
    c.part(env={"KIND": "pol", "MODELS": ALL + ",USER", "NSAMPLES": 800 if deep else 200, "NBASES": 20 if deep else 6, "DEPTH": 1})
    if deep:
        for m in ALL.split(","):
            c.part(env={"KIND": "pol", "MODELS": m, "NSAMPLES": 2, "NBASES": 2, "DEPTH": 2}, name="pairs " + m)


def sessions(c, deep):
    c.part("Walks", env={"MODELS": ALL + ",USER", "NWALKS": 4200 if deep else 1050, "LENGTH": 20 if deep else 14}, name="sessions",
           batches=4 if deep else 1)
    c.part("Tours", env={"MODELS": ALL + ",USER", "NBASES": 14 if deep else 5, "NNEAR": 10 if deep else 6}, name="tours")


@check("C03")
def coupling(c, deep):
    sessions(c, deep)


@check("C04")
def history(c, deep):
    sessions(c, deep)
    c.part("Walks", env={"MODELS": ALL, "WHICH": "threads", "NWALKS": 420 if deep else 105, "MOST": 0 if deep else 60},
           name="threads", batches=3 if deep else 1)


@check("C05")
def reading(c, deep):
    c.part("Access", env={"MODELS": GMMS + ",USER", "LENGTH": 3 if deep else 2}, name="every order")
    if deep:
        c.part("Access", env={"MODELS": GMMS + ",USER", "LENGTH": 3}, name="every order", batches=2)
    c.part(env={"KIND": "med", "MODELS": GMMS + ",USER", "NSAMPLES": 1600 if deep else 500, "NBASES": 4}, rows=0 if deep else 8, name="values")


@check("C06")
def interpolating(c, deep):
    c.part("Interpol", env={"MODELS": GMMS + ",GA11,USER", "NSAMPLES": 300 if deep else 150}, batches=3 if deep else 1)


@check("C07")
def filling(c, deep):
    c.part(env={"KIND": "fill", "MODELS": FILLED, "NSAMPLES": 4000 if deep else 1500, "NBASES": 12 if deep else 6}, name="completed")
    c.part("Estimates", env={"NSAMPLES": 4000 if deep else 1000}, name="estimators")
    if not deep:
        c.part(env={"KIND": "fill", "MODELS": FILLED, "NSAMPLES": 2, "NBASES": 2, "DEPTH": 2}, name="pairs")
    else:
        for m in FILLED.split(","):
            c.part(env={"KIND": "fill", "MODELS": m, "NSAMPLES": 2, "NBASES": 2, "DEPTH": 2}, name="pairs " + m)


for _p, _m, _n in (("C08", NGA, 10000), ("C09", NGA, 10000), ("C10", "AB06,C03,PZT11,TP05", 10000), ("C11", "ASB14,DBC14", 15000),
                   ("C12", "AGA16,CH14", 15000), ("C13", "BA19", 15000), ("C14", "GA11", 20000), ("C15", "AB20", 20000)):
    CHECKS[_p] = lambda c, deep, m=_m, n=_n: equations(c, deep, m, n)


@check("C16")
def durations(c, deep):
    equations(c, deep, "AS96,KS06,AS16", 10000)
    c.part("Energies", env={"MODELS": "AS96", "NSAMPLES": 3000 if deep else 600}, name="other intensities")
    c.part("Arrays", env={"FNS": "AS96.interp stds", "MODELS": "AS96", "NSAMPLES": 3000 if deep else 600}, name="arrays of standard errors")


@check("C17")
def energies(c, deep):
    equations(c, deep, "PR23,PR24", 10000)
    c.part("Energies", env={"MODELS": "PR23,PR24", "NSAMPLES": 600 if deep else 200}, name="energies")
    c.part("Arrays", env={"FNS": "PR24.duration_model", "MODELS": "PR24", "NSAMPLES": 3000 if deep else 1000}, name="arrays")


@check("C18")
def correlations(c, deep):
    c.part("Cors", env={"MODELS": "AS96", "NSAMPLES": 2000 if deep else 1200}, batches=3 if deep else 1, laws=True)


@check("C19")
def conditionals(c, deep):
    c.part("Cms", env={"MODELS": "AS96", "NSAMPLES": 4000 if deep else 3000}, batches=3 if deep else 1, laws=True)


@check("C20")
def site_terms(c, deep):
    c.part("Sites", env={"MODELS": SITED, "NSAMPLES": 5000 if deep else 3000}, name="calculators")
    c.part(env={"KIND": "med", "MODELS": SITED, "NSAMPLES": 4000 if deep else 2500, "NBASES": 4}, rows=0 if deep else 8, name="as applied")


@check("C21")
def finite(c, deep):
    c.part(env={"KIND": "fin", "STYLE": "dom", "MODELS": ALL, "NSAMPLES": 3000 if deep else 800, "NBASES": 12 if deep else 5, "DEPTH": 1},
           batches=2 if deep else 1, laws=True)
    if not deep:
        c.part(env={"KIND": "fin", "STYLE": "dom", "MODELS": ALL, "NSAMPLES": 1, "NBASES": 1, "DEPTH": 2}, name="pairs")
    else:
        for m in ALL.split(","):
            c.part(env={"KIND": "fin", "STYLE": "dom", "MODELS": m, "NSAMPLES": 2, "NBASES": 2, "DEPTH": 2}, name="pairs " + m)


@check("C22")
def trends(c, deep):
    c.part("Pairs", env={"MODELS": GMMS + ",AS96,KS06,AS16", "NSAMPLES": 500 if deep else 80, "NLADDERS": 600 if deep else 140}, batches=3 if deep else 1, laws=True,
           focus=400 if deep else 120)


@check("C23")
def boundaries(c, deep):
    c.part("Edges", env={"MODELS": ALL, "NSAMPLES": 40 if deep else 14, "NSWEEPS": 12 if deep else 6}, batches=3 if deep else 1, laws=True,
           focus=600 if deep else 200)


@check("C24")
def declared(c, deep):
    c.part("Invar", env={"MODELS": ALL + ",USER", "NSAMPLES": 300 if deep else 80}, batches=3 if deep else 1)


@check("C25")
def elementwise(c, deep):
    c.part("Arrays", env={"MODELS": "AS96", "NSAMPLES": 2500 if deep else 600}, batches=2 if deep else 1)
    c.part("Interpol", env={"MODELS": GMMS + ",GA11,USER", "NSAMPLES": 200 if deep else 50}, name="interpolation")
    c.part("Sites", env={"MODELS": SITED, "NSAMPLES": 1500 if deep else 400}, name="site terms")


@check("C26")
def catalogue(c, deep):
    c.part("Cats", env={"MODELS": ALL, "NSAMPLES": 300 if deep else 100})



@check("C28")
def copies(c, deep):
    c.part("Walks", env={"MODELS": ALL + ",USER", "NWALKS": 2000 if deep else 500, "LENGTH": 20 if deep else 14}, name="sessions with copies",
           batches=3 if deep else 1)


@check("C27")
def silent(c, deep):
    def part(*a, **k):
        c.part(*a, observe_extra={"NOISE": "1"}, **k)

    part("Cats", env={}, name="imports")
    part(env={"KIND": "fin", "STYLE": "dom", "MODELS": ALL + ",USER", "NSAMPLES": 3000 if deep else 800, "NBASES": 12 if deep else 6, "DEPTH": 1},
         batches=2 if deep else 1)
    if deep:
        for m in ALL.split(","):
            part(env={"KIND": "fin", "STYLE": "dom", "MODELS": m, "NSAMPLES": 2, "NBASES": 2, "DEPTH": 2}, name="pairs " + m)
    part(env={"KIND": "pol", "MODELS": ALL + ",USER", "NSAMPLES": 100 if deep else 20, "NBASES": 4 if deep else 1, "DEPTH": 1}, name="beyond the limits")
    part("Interpol", env={"MODELS": GMMS + ",GA11,USER", "NSAMPLES": 60 if deep else 12}, name="interpolation")
    part("Estimates", env={"NSAMPLES": 3000 if deep else 400}, name="estimators")
    part("Cors", env={"MODELS": "AS96", "NSAMPLES": 2000 if deep else 400}, name="correlations")
    part("Cms", env={"MODELS": "AS96", "NSAMPLES": 3000 if deep else 800}, name="conditional spectra")
    part("Arrays", env={"MODELS": "AS96", "NSAMPLES": 2000 if deep else 300}, name="arrays")
    part("Sites", env={"MODELS": SITED, "NSAMPLES": 3000 if deep else 600}, name="site terms")
    part("Energies", env={"MODELS": "PR23,PR24,AS96", "NSAMPLES": 300 if deep else 60}, name="energies")

SPEC = "TLA+ specification checked with TLC; "
_EQ = (SPEC + "TLC enumerates and samples scenarios over the specified domain, the real code runs them, and TLC judges every "
       "observation against the specified equations",
       "Bounded: every one-parameter change (regime boundaries, limits, options, left out) from several base scenarios, and "
       "pseudo-random scenarios; thorough adds all two-parameter changes and many more samples. Trusts the transcription of the "
       "equations and the frozen coefficient tables.")
NOTES = {
    "*": _EQ,
    "C01": (SPEC + "a heap of scenarios as a transition system (Store, Heaps): TLC explores every operation sequence to a depth and walks "
            "over the whole vocabulary, checks isolation of the specification, and every sequence is replayed on the real class and judged step by step",
            "All sequences of 3 (thorough: 4) operations over a small vocabulary, every key, and walks of up to 30 operations."),
    "C02": (SPEC + "declared parameters and policing rules (Policy, Catalogue) decide outcome, warnings, value in use and logging of each "
            "explored scenario; replayed on the real constructors",
            "Every one-parameter change of the bases: values on, at 1e-9 beyond and far beyond the limits, unknown options, missing inputs."),
    "C03": (SPEC + "sessions (Session, Walks) as a transition system of caller's objects and models; recorded content digests of every object "
            "after every step are judged against the frame conditions of the specification",
            "Pseudo-random sessions of 14-20 steps over all models and functions; contents are compared bit for bit."),
    "C04": (SPEC + "sessions as for C03 whose results are compared with those of a process that evaluated nothing else; two programs "
            "interleaved at every line of the package",
            "Interleavings stop one thread at each reached line of the package (quick: a sample) and let the other run, or run up to a "
            "point; races within one line are out of reach."),
    "C05": (SPEC + "orders of reads (Access) as a transition system; each reading is judged against the specified rows and units", _EQ[1]),
    "C06": (SPEC + "requests for periods (Interpol) judged against piecewise linear interpolation of the model's own table", _EQ[1]),
    "C07": (SPEC + "completed scenarios and estimators judged against the specified estimates; each estimate given explicitly is run again", _EQ[1]),
    "C18": (SPEC + "specified correlation functions judge the matrices; the laws (symmetry, diagonal, range) are also checked of the specification", _EQ[1]),
    "C19": (SPEC + "specified conditional law judges the spectra; the laws (targets met, deviations not larger, both methods alike) are also "
            "checked of the specification", _EQ[1]),
    "C21": (SPEC + "scenarios over the recommended domain judged finite and positive; also checked of the specification", _EQ[1]),
    "C22": (SPEC + "pairs of scenarios judged monotone; also checked of the specification", _EQ[1]),
    "C23": (SPEC + "both sides of every specified boundary, and sweeps in search of others, judged continuous; also checked of the specification",
            "Bounded: sampled base scenarios; jumps smaller than 5e-4 (CB14: 2e-3, rounded published constants) are not seen."),
    "C24": (SPEC + "disguised inputs (Invar) judged equal to the plain ones", _EQ[1]),
    "C25": (SPEC + "array requests judged element by element against the specification and the one-element calls", _EQ[1]),
    "C26": (SPEC + "the specified catalogue judges the attributes of the package, its models and their tables", "Complete for the catalogue; "
            "required-only scenarios are sampled."),
    "C27": (SPEC + "the specification decides which planned events lie within the domain (Within) and frames the state of the process (Quiet); the real "
            "calls run with floating-point warnings on and their warnings, output and changes of the process are recorded", _EQ[1]),
    "C28": (SPEC + "sessions with copies (Session, Walks): the transition that copies or sends a model names the same contents, which are "
            "compared bit for bit with what the copy reports", "Pseudo-random sessions of 14-20 steps over all models."),
}
