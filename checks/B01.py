"""B01: options loaded from JSON are exactly what the file says, or the file is rejected."""

import dataclasses
import json
import os
from pathlib import Path

from monitor.harness import Ctx, Family, main

from instancespace.data import options as o
from instancespace.data.options import InstanceSpaceOptions, from_json_file

SCR = Path(os.environ["ISA_SCRATCH"])
# Documented JSON spellings (README, demo options.json) -> meaning.
GROUPS = {
    "parallel": (o.ParallelOptions, {"flag": "flag", "ncores": "n_cores"}),
    "perf": (o.PerformanceOptions, {"MaxPerf": "max_perf", "AbsPerf": "abs_perf", "epsilon": "epsilon",
                                    "betaThreshold": "beta_threshold"}),
    "auto": (o.AutoOptions, {"preproc": "preproc"}),
    "bound": (o.BoundOptions, {"flag": "flag"}),
    "norm": (o.NormOptions, {"flag": "flag"}),
    "selvars": (o.SelvarsOptions, {"smallscaleflag": "small_scale_flag", "smallscale": "small_scale",
                                   "fileidxflag": "file_idx_flag", "fileidx": "file_idx", "feats": "feats",
                                   "algos": "algos", "type": "selvars_type", "mindistance": "min_distance",
                                   "densityflag": "density_flag"}),
    "sifted": (o.SiftedOptions, {"flag": "flag", "rho": "rho", "K": "k", "NTREES": "n_trees",
                                 "MaxIter": "max_iter", "Replicates": "replicates",
                                 "num_generations": "num_generations", "num_parents_mating": "num_parents_mating",
                                 "sol_per_pop": "sol_per_pop", "parent_selection_type": "parent_selection_type",
                                 "k_tournament": "k_tournament", "keep_elitism": "keep_elitism",
                                 "crossover_type": "crossover_type",
                                 "cross_over_probability": "cross_over_probability",
                                 "mutation_type": "mutation_type",
                                 "mutation_probability": "mutation_probability",
                                 "stop_criteria": "stop_criteria"}),
    "pilot": (o.PilotOptions, {"analytic": "analytic", "ntries": "n_tries", "x0": "x0", "alpha": "alpha"}),
    "cloister": (o.CloisterOptions, {"pval": "p_val", "cthres": "c_thres"}),
    "pythia": (o.PythiaOptions, {"cvfolds": "cv_folds", "ispolykrnl": "is_poly_krnl", "useweights": "use_weights",
                                 "uselibsvm": "use_grid_search", "use_grid_search": "use_grid_search",
                                 "params": "params"}),
    "trace": (o.TraceOptions, {"usesim": "use_sim", "PI": "purity"}),
    "outputs": (o.OutputOptions, {"csv": "csv", "web": "web", "png": "png"}),
}
# Defaults as documented for the toolkit at the pinned commit.
DEFAULTS = {
    "parallel": {"flag": False, "n_cores": 2},
    "perf": {"max_perf": False, "abs_perf": True, "epsilon": 0.20, "beta_threshold": 0.55},
    "auto": {"preproc": True},
    "bound": {"flag": True},
    "norm": {"flag": True},
    "selvars": {"small_scale_flag": False, "small_scale": 0.5, "file_idx_flag": False, "file_idx": "",
                "feats": None, "algos": None, "selvars_type": "Ftr&Good", "min_distance": 0.1,
                "density_flag": False},
    "sifted": {"flag": True, "rho": 0.1, "k": 6, "n_trees": 50, "max_iter": 1000, "replicates": 100,
               "num_generations": 100, "num_parents_mating": 2, "sol_per_pop": 50,
               "parent_selection_type": "tournament", "k_tournament": 4, "keep_elitism": 2,
               "crossover_type": "scattered", "cross_over_probability": 0.8, "mutation_type": "random",
               "mutation_probability": 0.05, "stop_criteria": "saturate_5"},
    "pilot": {"x0": None, "alpha": None, "analytic": False, "n_tries": 5},
    "cloister": {"p_val": 0.05, "c_thres": 0.7},
    "pythia": {"cv_folds": 5, "is_poly_krnl": False, "use_weights": False, "use_grid_search": False,
               "params": None},
    "trace": {"use_sim": True, "purity": 0.55},
    "outputs": {"csv": True, "web": False, "png": True},
}


def casing(rng, s):  # noqa: ANN001, ANN201
    r = rng.random()
    if r < 0.4:
        return s
    if r < 0.6:
        return s.lower()
    if r < 0.75:
        return s.upper()
    return "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)


def value(rng, default):  # noqa: ANN001, ANN201
    """A value differing from the default with near certainty (falsy values included)."""
    r = rng.random()
    if isinstance(default, bool):
        return not default
    if r < 0.12:
        return 0
    if r < 0.2:
        return 0.0
    if r < 0.26:
        return ""
    if r < 0.3:
        return []
    if r < 0.34:
        return False
    if isinstance(default, str):
        return "s" + str(rng.integers(10**6))
    if default is None:
        return [f"x{j}" for j in range(int(rng.integers(1, 4)))]
    return float(rng.normal()) if isinstance(default, float) else int(rng.integers(1, 10**6))


def gen(rng, ctx):  # noqa: ANN001, ANN201
    """JSON document and what it must mean."""
    doc, want = {}, {g: dict(d) for g, d in DEFAULTS.items()}
    for gname, (_cls, names) in GROUPS.items():
        if rng.random() < 0.35:
            continue
        sub = {}
        used = set()
        keys = list(names)
        for key in rng.permutation(keys):
            key = str(key)
            field = names[key]
            if field in used or rng.random() < 0.5:
                continue
            spelled = casing(rng, key if rng.random() < 0.6 else field)
            v = value(rng, DEFAULTS[gname][field])
            sub[spelled] = v
            want[gname][field] = v
            used.add(field)
            ctx.event("field_given")
        doc[gname] = sub
    items = list(doc.items())
    rng.shuffle(items)
    return dict(items), want


def same(a, b) -> bool:  # noqa: ANN001
    return type(a) is type(b) and a == b


def check_loaded(ctx: Ctx, got, want, doc, via) -> None:  # noqa: ANN001
    for gname, fields in want.items():
        grp = getattr(got, gname)
        have = {f.name: getattr(grp, f.name) for f in dataclasses.fields(grp)}
        for fname, v in fields.items():
            ctx.event("field_compared")
            if not (fname in have and same(have[fname], v)):
                ctx.violation(
                    "wrong-value",
                    f"{via}: {gname}.{fname} = {have.get(fname)!r}, expected {v!r}",
                    document=doc,
                )


def roundtrip(ctx: Ctx) -> None:
    rng = ctx.rng
    for _ in range(12):
        doc, want = gen(rng, ctx)
        text = json.dumps(doc)
        snapshot = json.loads(text)
        check_loaded(ctx, InstanceSpaceOptions.from_dict(doc), want, doc, "from_dict")
        ctx.require(doc == snapshot, "document-changed", "from_dict changed the caller's dictionary")
        p = SCR / f"o{os.getpid()}.json"
        p.write_text(text)
        for arg in (p, str(p)):
            got = from_json_file(arg)
            if not ctx.require(got is not None, "valid-rejected", f"valid options rejected: {text}"):
                return
            check_loaded(ctx, got, want, doc, "from_json_file")
        ctx.distinct(tuple(sorted((g, tuple(sorted(map(str.lower, d)))) for g, d in doc.items())))
        ctx.event("document")
    ctx.sample(doc)


def rejected(ctx: Ctx) -> None:
    rng = ctx.rng
    for _ in range(10):
        doc, _want = gen(rng, ctx)
        gname = str(rng.choice(list(GROUPS)))
        names = GROUPS[gname][1]
        kind = str(rng.choice(["unknown-field", "unknown-group", "twice-case", "twice-alias", "not-object", "top"]))
        if kind == "unknown-field":
            doc.setdefault(gname, {})[f"zz_{rng.integers(1000)}"] = 1
        elif kind == "unknown-group":
            doc[str(rng.choice(["Perf", "general", "zz", "SIFTED", "output"]))] = {}
        elif kind == "twice-case":
            key = str(rng.choice([k for k in names if k.upper() != k.lower()]))
            sub = {k: v for k, v in doc.get(gname, {}).items() if k.lower() not in (key.lower(), names[key].lower())}
            sub[key.lower()] = 1
            sub[key.upper()] = 1
            doc[gname] = sub
        elif kind == "twice-alias":
            cand = [(k, f) for k, f in names.items() if k.lower() != f.lower()]
            if not cand:
                continue
            key, field = cand[int(rng.integers(len(cand)))]
            pair = [(casing(rng, key), 1), (casing(rng, field), 1)]
            rng.shuffle(pair)
            sub = {k: v for k, v in doc.get(gname, {}).items() if names.get(k, k.lower()) != field
                   and k.lower() not in (key.lower(), field.lower())}
            sub.update({str(k): int(v) for k, v in pair})
            doc[gname] = sub
        elif kind == "not-object":
            doc[gname] = [None, 3, "x", [], [1], True][int(rng.integers(6))]
        else:
            doc = [[], [doc], 3, "perf", None, True][int(rng.integers(6))]
        try:
            got = InstanceSpaceOptions.from_dict(doc)
            ctx.violation("invalid-accepted", f"{kind}: accepted {json.dumps(doc)[:300]} as {got}")
        except ValueError:
            ctx.event("rejected_" + kind)
        p = SCR / f"r{os.getpid()}.json"
        p.write_text(json.dumps(doc))
        got = from_json_file(p)
        ctx.require(got is None, "invalid-file-accepted", f"{kind}: file accepted: {json.dumps(doc)[:300]}")
        ctx.distinct(kind, gname)


def defaults(ctx: Ctx) -> None:
    rng = ctx.rng
    check_loaded(ctx, InstanceSpaceOptions.default(), DEFAULTS, None, "default()")
    check_loaded(ctx, InstanceSpaceOptions.from_dict({}), DEFAULTS, {}, "from_dict({})")
    given, want = {}, {g: dict(d) for g, d in DEFAULTS.items()}
    for gname, (cls, names) in GROUPS.items():
        if rng.random() < 0.5:
            continue
        kw = {f: value(rng, DEFAULTS[gname][f]) for f in set(names.values())
              if rng.random() < 0.5 and f != "params"}
        given[gname] = cls.default(**kw)
        want[gname].update(kw)
    check_loaded(ctx, InstanceSpaceOptions.default(**given), want, given, "default(groups)")
    p = o.PrelimOptions.from_options(InstanceSpaceOptions.default(**given))
    pairs = [(p.max_perf, "perf", "max_perf"), (p.abs_perf, "perf", "abs_perf"), (p.epsilon, "perf", "epsilon"),
             (p.beta_threshold, "perf", "beta_threshold"), (p.bound, "bound", "flag"), (p.norm, "norm", "flag")]
    for have, gname, f in pairs:
        ctx.event("prelim_option")
        exp = want[gname][f]
        if gname in ("bound", "norm"):  # switched off as a whole by auto.preproc
            exp = bool(exp) and bool(want["auto"]["preproc"])
            have = bool(have)
        ctx.require(same(have, exp), "prelim-options", f"{gname}.{f}: {have!r} != {exp!r}")
    ctx.distinct(tuple(sorted(given)))


main(
    "B01",
    [Family("roundtrip", roundtrip, 250, 6000), Family("rejected", rejected, 150, 3000),
     Family("defaults", defaults, 150, 2000)],
    rule="random options documents over every group and field, every documented spelling and field name in "
    "random letter case and order, falsy and odd-typed values; invalid documents of six kinds; distinct = "
    "set of fields given / (kind of invalidity, group)",
    assumptions=["field table transcribed from README, demo options and dataclass definitions at the pinned commit"],
    required_events=["field_given", "field_compared", "rejected_unknown-field", "rejected_unknown-group",
                     "rejected_twice-case", "rejected_twice-alias", "rejected_not-object", "rejected_top"],
)
