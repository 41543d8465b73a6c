import dataclasses
import json
import os
import shutil
import tempfile

from sx.run import H
from sx.spec import *

PROPERTY = "C06"
LEVEL = "model_checking"

# documented key -> field, per section (README option list)
DOC = {
    "parallel": {"flag": "flag", "ncores": "n_cores"},
    "perf": {"MaxPerf": "max_perf", "AbsPerf": "abs_perf", "epsilon": "epsilon",
             "betaThreshold": "beta_threshold"},
    "auto": {"preproc": "preproc"},
    "bound": {"flag": "flag"},
    "norm": {"flag": "flag"},
    "selvars": {"smallscaleflag": "small_scale_flag", "smallscale": "small_scale",
                "fileidxflag": "file_idx_flag", "fileidx": "file_idx",
                "densityflag": "density_flag", "mindistance": "min_distance",
                "type": "selvars_type", "feats": "feats", "algos": "algos"},
    "sifted": {"flag": "flag", "rho": "rho", "K": "k", "NTREES": "n_trees",
               "MaxIter": "max_iter", "Replicates": "replicates"},
    "pilot": {"analytic": "analytic", "ntries": "n_tries", "X0": "x0", "alpha": "alpha"},
    "cloister": {"pval": "p_val", "cthres": "c_thres"},
    "pythia": {"cvfolds": "cv_folds", "ispolykrnl": "is_poly_krnl", "useweights": "use_weights",
               "uselibsvm": "use_grid_search", "params": "params"},
    "trace": {"usesim": "use_sim", "PI": "purity"},
    "outputs": {"csv": "csv", "png": "png", "web": "web"},
}
# field -> the constant that documents its default
CONST = {
    "parallel": {"flag": "PARALLEL_FLAG", "n_cores": "PARALLEL_N_CORES"},
    "perf": {"max_perf": "PERFORMANCE_MAX_PERF", "abs_perf": "PERFORMANCE_ABS_PERF",
             "epsilon": "PERFORMANCE_EPSILON", "beta_threshold": "PERFORMANCE_BETA_THRESHOLD"},
    "auto": {"preproc": "AUTO_PREPROC"}, "bound": {"flag": "BOUND_FLAG"},
    "norm": {"flag": "NORM_FLAG"},
    "selvars": {"small_scale_flag": "SELVARS_SMALL_SCALE_FLAG",
                "small_scale": "SELVARS_SMALL_SCALE", "file_idx_flag": "SELVARS_FILE_IDX_FLAG",
                "file_idx": "SELVARS_FILE_IDX", "density_flag": "SELVARS_DENSITY_FLAG",
                "min_distance": "SELVARS_MIN_DISTANCE", "selvars_type": "SELVARS_TYPE"},
    "sifted": {"flag": "SIFTED_FLAG", "rho": "SIFTED_RHO", "k": "SIFTED_K",
               "n_trees": "SIFTED_NTREES", "max_iter": "SIFTED_MAX_ITER",
               "replicates": "SIFTED_REPLICATES", "num_generations": "SIFTED_NUM_GENERATION",
               "num_parents_mating": "SIFTED_NUM_PARENTS_MATING",
               "sol_per_pop": "SIFTED_SOL_PER_POP",
               "parent_selection_type": "SIFTED_PARENT_SELECTION_TYPE",
               "k_tournament": "SIFTED_K_TOURNAMENT", "keep_elitism": "SIFTED_KEEP_ELITISM",
               "crossover_type": "SIFTED_CROSSOVER_TYPE",
               "cross_over_probability": "SIFTED_CROSSOVER_PROBABILITY",
               "mutation_type": "SIFTED_MUTATION_TYPE",
               "mutation_probability": "SIFTED_MUTATION_PROBABILITY",
               "stop_criteria": "SIFTED_STOP_CRITERIA"},
    "pilot": {"analytic": "PILOT_ANALYTICS", "n_tries": "PILOT_N_TRIES"},
    "cloister": {"p_val": "CLOISTER_P_VAL", "c_thres": "CLOISTER_C_THRES"},
    "pythia": {"cv_folds": "PYTHIA_CV_FOLDS", "is_poly_krnl": "PYTHIA_IS_POLY_KRNL",
               "use_weights": "PYTHIA_USE_WEIGHTS", "use_grid_search": "PYTHIA_USE_GRID_SEARCH"},
    "trace": {"use_sim": "TRACE_USE_SIM", "purity": "TRACE_PURITY"},
    "outputs": {"csv": "OUTPUTS_CSV", "web": "OUTPUTS_WEB", "png": "OUTPUTS_PNG"},
}
NONE = {"selvars": ["feats", "algos"], "pilot": ["x0", "alpha"], "pythia": ["params"]}


def O():
    from instancespace.data import options
    return options


def sections():
    return [f.name for f in dataclasses.fields(O().InstanceSpaceOptions)]


def fields_of(section):
    d = O().InstanceSpaceOptions.from_dict({})
    return [f.name for f in dataclasses.fields(type(getattr(d, section)))]


def default_of(section, field):
    from instancespace.data import default_options as D
    if field in NONE.get(section, ()):
        return None
    c = CONST.get(section, {}).get(field)
    return getattr(D, "DEFAULT_" + c, MISSING) if c else MISSING


MISSING = object()


def spellings(section, field):
    doc = [k for k, v in DOC[section].items() if v == field]
    out = []
    for k in doc + [field]:
        for s in (k, k.lower(), k.upper(), k.capitalize()):
            if s not in out:
                out.append(s)
    return out


def load(d):
    try:
        return O().InstanceSpaceOptions.from_dict(d), None
    except ValueError as e:
        return None, e


def verify(ctx, o, given, label="every absent field has its default"):
    """given: {(section, field): value}; all others must be at their default."""
    for s in sections():
        sec = getattr(o, s)
        for f in fields_of(s):
            got = getattr(sec, f)
            if (s, f) in given:
                want = given[s, f]
                ctx.check(got is want if isinstance(got, str) or got is None else eq(got, want),
                          "a recognised key sets the field it names to the given value")
            else:
                d = default_of(s, f)
                if d is not MISSING:
                    ctx.check(np.bool_(type(got) is type(d) and got == d), label)


def one_section(ctx, section, k):
    """Up to k keys of a section, in any spelling, with arbitrary values."""
    fs = fields_of(section)
    keys, given, d = [], {}, {}
    for i in range(k):
        f = ctx.choose(f"field{i}", [None] + [f for f in fs if f not in keys])
        if f is None:
            continue
        keys.append(f)
        key = ctx.choose(f"key{i}", spellings(section, f) if k == 1 else
                         [spellings(section, f)[0], spellings(section, f)[-1]])
        v = ctx.real(f"value{i}", -100, 100)
        if k == 1 and bool(ctx.bool("null")):
            v = None
        d[key] = v
        given[section, f] = v
    o, e = load({section: d})
    ctx.check(np.bool_(o is not None), "recognised keys are accepted")
    if o is not None:
        verify(ctx, o, given)
    if k == 1:
        o, e = load({section: {**d, "_": ctx.real("comment", -9, 9)}})
        ctx.check(np.bool_(o is not None), "a key named _ is ignored")
        if o is not None:
            verify(ctx, o, given)
    ctx.reach()


def all_sections(ctx, docs):
    """Every field of every section at once, by documented or by field name."""
    given, d = {}, {}
    for s in sections():
        d[s] = {}
        for f in fields_of(s):
            v = ctx.real(f"{s}.{f}", -100, 100)
            d[s][spellings(s, f)[0] if docs else f] = v
            given[s, f] = v
    left = ctx.choose("absent", [None] + sections())
    if left:
        del d[left]
        given = {k: v for k, v in given.items() if k[0] != left}
    o, e = load(d)
    ctx.check(np.bool_(o is not None), "recognised keys are accepted")
    if o is None:
        return
    verify(ctx, o, given)
    p = O().PrelimOptions.from_options(o)
    for f, (s, g) in dict(max_perf=("perf", "max_perf"), abs_perf=("perf", "abs_perf"),
                          epsilon=("perf", "epsilon"),
                          beta_threshold=("perf", "beta_threshold"), bound=("bound", "flag"),
                          norm=("norm", "flag")).items():
        ctx.check(eq(getattr(p, f), getattr(getattr(o, s), g)),
                  "the preparation options carry the corresponding settings")
    ctx.reach()


def unknown(ctx, section):
    """An unknown key, an unknown section, or one field given twice is refused."""
    how = ctx.choose("how", ["key", "section", "twice", "other section's key"])
    fs = fields_of(section)
    v, w = ctx.real("v", -9, 9), ctx.real("w", -9, 9)
    d = {section: {}}
    if bool(ctx.bool("with_known")):
        d[section][fs[0]] = v
    if how == "key":
        base = ctx.choose("base", fs + list(DOC[section]))
        key = ctx.choose("key", [base + "x", "x" + base, base[:-1] + "_", base + "_", base + " ",
                                 "_" + base, "__"])
        known = {s for f in fs for s in spellings(section, f)}
        if key == "_" or key.lower() in {s.lower() for s in known}:
            return
        d[section][key] = w
    elif how == "section":
        s = ctx.choose("name", ["general", "Perf", "PERF", "perf ", "prelim", "", section + "s",
                                section.upper(), "flag"])
        d[s] = ctx.choose("content", [{}, {"flag": w}])
    elif how == "twice":
        f = ctx.choose("f", fs)
        sp = spellings(section, f)
        a = ctx.choose("first", sp[:2])
        b = ctx.choose("second", [s for s in sp if s != a][-2:])
        d[section] = {a: v, b: w}
    else:
        pool = sorted({k for s in DOC for k in DOC[s]} - {x for x in DOC[section]} - set(fs))
        pool = [q for q in pool if q.lower() not in {z.lower() for f in fs
                                                     for z in spellings(section, f)}]
        d[section][ctx.choose("key", pool)] = w
    o, e = load(d)
    ctx.check(np.bool_(o is None), "an unknown or repeated key or section is refused")
    ctx.reach()


def defaults(ctx, n):
    """Defaults without arguments are those of an empty mapping; given sections are used."""
    m = O()
    a = m.InstanceSpaceOptions.from_dict({})
    verify(ctx, a, {})
    b = m.InstanceSpaceOptions.default()
    ctx.check(np.bool_(a == b), "the defaults equal those of an empty mapping")
    for s in sections():
        ctx.check(np.bool_(type(getattr(a, s)).default() == getattr(a, s)),
                  "a section's defaults equal those of an empty mapping")
    s = ctx.choose("section", sections())
    f = ctx.choose("field", fields_of(s))
    v = ctx.real("v", 1, 9)
    sec = dataclasses.replace(getattr(a, s), **{f: v})
    c = m.InstanceSpaceOptions.default(**{s: sec})
    verify(ctx, c, {(s, f): v})
    ctx.reach()


def json_file(ctx, section):
    """The same through a real file."""
    f = ctx.choose("field", [f for f in fields_of(section) if f not in NONE.get(section, ())])
    key = spellings(section, f)[0]
    v = ctx.choose("value", [0, 1, 0.25, True, "text"])
    bad = bool(ctx.bool("bad"))
    d = tempfile.mkdtemp(prefix="sx06_")
    try:
        p = os.path.join(d, "options.json")
        with open(p, "w") as fo:
            json.dump({section: {key: v, **({"nokey": 1} if bad else {})}}, fo)
        o = O().from_json_file(p)
        ctx.check(np.bool_((o is None) == bad), "a file is refused exactly when a key is unknown")
        if o is not None:
            got = getattr(getattr(o, section), f)
            ctx.check(np.bool_(got == v and type(got) is type(v)),
                      "a recognised key sets the field it names to the given value")
        ctx.reach()
    finally:
        shutil.rmtree(d)


SECTIONS = list(DOC)
HARNESSES = [
    H(one_section, [dict(section=s, k=k) for s in SECTIONS for k in (1, 2)],
      [dict(section=s, k=k) for s in SECTIONS for k in (1, 2, 3)]),
    H(all_sections, [dict(docs=True), dict(docs=False)]),
    H(unknown, [dict(section=s) for s in SECTIONS]),
    H(defaults, [dict(n=1)]),
    H(json_file, [dict(section=s) for s in SECTIONS]),
]
BOUNDS = ("any one or two keys of a section in any spelling (documented, field name, letter case) "
          "and all keys of all sections at once, values arbitrary; unknown keys derived from known ones")
EXPLANATION = ("InstanceSpaceOptions.from_dict and from_json_file are executed on option mappings "
               "whose keys, spellings and values are symbolic; each given value must arrive in its "
               "field, all others keep their default, and unknown or doubly given keys and unknown "
               "sections must be refused. Field names come from the current dataclasses, documented "
               "names from the documentation.")
OUTSIDE = ("values of a wrong type")
