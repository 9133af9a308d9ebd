"""The properties, and how each is decided (source of properties.jsonl and MANIFEST.json)."""

SB, SR, ST = "instancespace/stage_builder.py", "instancespace/stage_runner.py", "instancespace/stages/stage.py"
OPT, META, SPACE = "instancespace/data/options.py", "instancespace/data/metadata.py", "instancespace/instance_space.py"
PRE, PREL, FIL = "instancespace/stages/preprocessing.py", "instancespace/stages/prelim.py", "instancespace/utils/filter.py"
SIF, PIL, PYT = "instancespace/stages/sifted.py", "instancespace/stages/pilot.py", "instancespace/stages/pythia.py"
CLO, TRA = "instancespace/stages/cloister.py", "instancespace/stages/trace.py"
SER, MOD, DMOD = "instancespace/_serialisers.py", "instancespace/model.py", "instancespace/data/model.py"
REF = "executions judged by a reference oracle"

NOT_APPLICABLE: list[dict] = []

PROPS = [
    dict(
        id="A01", title="Stage order satisfies every declared dependency and restriction",
        statement="For any set of stages and initial inputs, building either yields an order in which every stage runs exactly once, "
        "after everything it reads has been produced and after (or before) every stage it declares it must follow (or precede), or it "
        "reports that the stages cannot be ordered; it accepts exactly the sets that can be ordered. Stages that are ready together are "
        "scheduled together, and resolving changes neither the builder's stages nor the caller's initial inputs.",
        over=["programs", "configurations"], quantifier="all finite stage graphs, declared inputs/outputs and restrictions, in any order of registration",
        tests="The tests build about a dozen fixed graphs, none with a restriction that decides the order; the guarantee ranges over all graphs and registration orders.",
        files=[SB, ST], mechanism=[("dependency resolution", SB), ("stage interface and restrictions", ST)],
        observe=["the built runner's schedule", "errors raised by build"],
        technique="reference-model monitor over generated stage graphs",
        note="Exploration: ~1000 (quick) to tens of thousands of random graphs with decoys, cycles and restrictions compared with an independent level-order reference.",
    ),
    dict(
        id="A02", title="Every stage sees exactly the latest value of each input, undisturbed",
        statement="When stages run, each receives for every input the value most recently produced for that name by an earlier stage or given initially, "
        "no matter how many stages produce or read it. A stage that changes a value it received never affects what stages scheduled alongside it, the caller, "
        "or previously reported results see, and the outcome does not depend on the process it runs in.",
        over=["programs", "histories", "schedules"], quantifier="all stage graphs, values and stages that mutate their inputs, in any process",
        tests="Tests run a few fixed graphs with well-behaved stages; aliasing between stages only shows with particular sharing and mutation patterns.",
        files=[SR, SB], mechanism=[("copying of inputs and outputs", SR)], observe=["arguments each stage received", "returned outputs"],
        technique="recorded stage-call traces judged by a dataflow reference",
        note="Exploration: every value carries a unique token, so each read identifies the write it observed; mutating stages and fresh processes included.",
    ),
    dict(
        id="A03", title="Any history of running, re-running and stepping gives consistent results",
        statement="Running all stages, running them one at a time, iterating, or running up to a stage (which includes that stage) produce the same values for the same inputs, "
        "whatever was run before. Re-running a stage uses the inputs it originally had unless others are given, and never requires or uses results of stages that have not run.",
        over=["histories"], quantifier="all sequences of run operations on one space",
        tests="Tests exercise each entry point once on a fresh object; stale state needs particular sequences.",
        files=[SR, SPACE], mechanism=[("per-schedule input snapshots", SR)], observe=["returned outputs", "arguments each stage received"],
        technique="random operation histories checked against a sequential reference model",
        note="Exploration: hundreds to tens of thousands of random histories of operations, with errors and overridden arguments, against an executable model.",
    ),
    dict(
        id="B01", title="Options mean what the file or caller says, with defaults elsewhere",
        statement="Every option given in a file, a mapping or by the caller takes the given value, and every option not given takes its default, in every way of constructing options. "
        "Unknown groups or names are rejected with an error naming them, and options derived for a stage reflect the given ones.",
        over=["inputs", "configurations"], quantifier="all subsets of option groups and fields, all values, spelled in the file's letter case",
        tests="Tests load a handful of fixed files; a mapping error in one of the ~60 fields under one combination goes unnoticed.",
        files=[OPT, "instancespace/data/default_options.py"], mechanism=[("field mapping and defaults", OPT)],
        technique="round-trip oracle over generated option files", note="Exploration: random option documents compared field by field with an independent table of names and defaults.",
    ),
    dict(
        id="B02", title="Loading never fails in an undocumented way",
        statement="Loading options or metadata from any file content, including truncated, binary, empty or wrongly typed content, either yields a usable object or the documented failure "
        "(nothing, with the reason printed, or a value error for mappings); it never raises anything else, and the same holds for building an instance space from files or a directory.",
        over=["inputs", "fault_sequences"], quantifier="all byte contents of the two files, including every mutation of valid ones, and missing or unreadable paths",
        tests="Tests try a few malformed files.", files=[META, OPT, SPACE], mechanism=[("error handling of the loaders", META), ("error handling of option loading", OPT)],
        technique="mutation fuzzing with an outcome monitor", note="Exploration: structure-aware and byte-level mutations; every outcome classified as documented or not.",
    ),
    dict(
        id="B03", title="Loaded metadata is a faithful image of the table",
        statement="The loaded metadata contains exactly the table's instances, features and algorithms: labels, sources and names as written, in file order, and every number in its own cell. "
        "This holds for any column order, letter case of the column roles, label style and missing cells, whether loaded from a file or from a data frame, which is itself left unchanged.",
        over=["inputs"], quantifier="all well-formed tables", tests="Tests load one or two tables and look at names and shapes.",
        files=[META], mechanism=[("column classification and extraction", META)], technique="cell-by-cell oracle over generated tables",
        note="Exploration: random tables with labels that look like numbers or missing values, decoy columns, quoting, byte-order marks and single rows.",
    ),
    dict(
        id="C01", title="Cleaning keeps the selected, usable data and nothing moves",
        statement="After the first step the data consist of exactly the selected features and algorithms (all, if none of the selected exist) in table order, without the instances that lack all features or all performance values, "
        "and without features missing from 20% or more of the remaining instances. Every remaining value, label, source and name still belongs together.",
        over=["inputs", "configurations"], quantifier="all tables with any pattern of missing values and any selections",
        tests="Tests use one table and a few hand-made arrays with a single pattern of missing values.", files=[PRE],
        mechanism=[("selection", PRE), ("removal of instances and features", PRE)], technique="reference oracle on self-identifying tables",
        note="Exploration: cells encode their own row and column, so any displaced value is visible; limits are hit exactly.",
    ),
    dict(
        id="D01", title="Good, best and easy labels follow their definitions",
        statement="For every instance, the best performance is the maximum (or minimum) over the algorithms with a value, and the winning algorithm attains it; an algorithm is good exactly if it reaches the absolute threshold, or is within the given relative margin of the best, "
        "and never when its value is missing. The number of good algorithms, and whether an instance counts as easy (more than the given share of algorithms good), agree with that.",
        over=["inputs", "configurations"], quantifier="all performance tables, thresholds, maximise/minimise and absolute/relative settings",
        tests="Tests compare one data set and one setting (minimise, absolute) with reference output.", files=[PREL], mechanism=[("performance labelling", PREL)],
        technique="definition oracle over generated performance tables", note="Exploration: ties, zeros, missing values and values exactly at the threshold are generated deliberately.",
    ),
    dict(
        id="D02", title="Bounding and scaling are exactly what their recorded parameters say",
        statement="Raw data are always reported unchanged. The processed features and performance values are those obtained from the raw ones by the recorded bounds, shifts, power transforms, means and deviations (which are those of the data, and bound at five interquartile ranges from the median), "
        "keep their order within each column and their missing cells, and are left alone when the respective step or all pre-processing is off.",
        over=["inputs", "configurations"], quantifier="all non-constant numeric tables and on/off settings",
        tests="Tests compare one data set without missing values or relative performance, with both steps on.", files=[PREL, OPT], mechanism=[("bounding", PREL), ("normalisation", PREL)],
        technique="recomputation oracle from the recorded parameters", note="Exploration: each column is recomputed from the raw values and the reported parameters; the power is checked as a local likelihood optimum.",
    ),
    dict(
        id="D03", title="The subset is the one asked for and everything per-instance follows it",
        statement="With a fraction, an index file or a density distance, the instances used are respectively a reproducible sample of that size, exactly the (1-based) listed ones that exist, or exactly those the density filter keeps; otherwise all. "
        "Every per-instance quantity, label and source is that of the same instance in the complete data, while parameters describe the complete data, which a density subset also keeps.",
        over=["inputs", "configurations"], quantifier="all data sets, subset modes, and index-file contents",
        tests="No test runs a subset through the whole step; one checks an index file whose last instance is not listed.", files=[PREL, FIL], mechanism=[("subset selection", PREL)],
        technique="differential monitor: subset run against complete run", note="Exploration: every array of the subset run is compared with the matching rows of the complete run on the same data.",
    ),
    dict(
        id="E01", title="The density filter covers what it removes and separates what it keeps",
        statement="Every instance the density filter removes lies within the given distance of an earlier kept instance and is redundant with it under the chosen criterion (features, performance, goodness, or both), and no two kept instances are redundant in that sense. "
        "The dissimilar and kept-despite-neighbour marks and the uniformity value follow from the kept instances.",
        over=["inputs", "configurations"], quantifier="all point sets, performances, distances and the four criteria",
        tests="Tests run four fixed data sets of the same points.", files=[FIL], mechanism=[("pairwise filter", FIL), ("uniformity", FIL)],
        technique="cover/separation invariant monitor", note="Exploration: clouds and lattices, with distances exactly at the limit.",
    ),
    dict(
        id="F01", title="Feature selection by correlation keeps exactly the right features",
        statement="When feature selection is on, it keeps, for each algorithm, the feature most strongly and significantly correlated with its performance, and every feature whose significant correlation with some algorithm is at least the threshold in magnitude, and no other. "
        "Columns, names, indices and reported correlations belong to the kept features, nothing per-instance changes, and all features are kept when selection is off or there are at most three.",
        over=["inputs", "configurations"], quantifier="all data sets with positive, negative and absent relations, and thresholds",
        tests="One data set with a threshold low enough that every feature passes.", files=[SIF], mechanism=[("selection by correlation", SIF)],
        technique="independent-statistics oracle", note="Exploration: correlations and p-values recomputed from their definitions; clear-cut cases judged exactly.",
    ),
    dict(
        id="F02", title="Feature clustering keeps one feature per group, and a good choice of them",
        statement="When more features pass than groups are asked for, they are partitioned into that many non-empty groups and exactly one feature of each group is kept, the combination whose projection predicts good performance with (nearly) the smallest error among those tried. "
        "The result is reproducible, and with a density subset the instances are re-filtered on the kept features with every per-instance quantity following. The reported silhouettes are those of the groups.",
        over=["inputs", "configurations"], quantifier="all data sets with groups of similar features",
        tests="The only test of this step takes minutes, is left out of the reliable set, and only compares correlations of the result with a reference loosely.", files=[SIF],
        mechanism=[("k-means grouping", SIF), ("genetic search", SIF)], technique="partition invariants and an exhaustive-alternatives oracle",
        note="Exploration: all combinations of group members are scored independently; the choice must be in the better half when they differ clearly.",
    ),
    dict(
        id="G01", title="The projection agrees with everything it reports about itself",
        statement="The coordinates are exactly the features times the projection matrix; the reported error, explained variance per feature and algorithm, trial errors, trial qualities and summary table are those of the reported matrices, which have one entry per feature and per algorithm. "
        "Given starting points or a given solution are used as given, and inputs are not changed.",
        over=["inputs", "configurations"], quantifier="all data sets, analytic/numerical/given solutions", tests="Two data sets are compared with reference output; for the numerical solution only errors and qualities are compared.",
        files=[PIL], mechanism=[("projection and its reports", PIL)], technique="self-consistency monitor", note="Exploration: each reported quantity recomputed from the reported matrices.",
    ),
    dict(
        id="G02", title="The projection is as good as its method can make it",
        statement="The analytic projection is the least-squares map onto the two principal directions of features and performance together. Each numerical trial ends with no larger error than it started with, the best trial reaches (nearly) the smallest error any two-dimensional linear projection can have, "
        "and the trial reported is the one that best preserves distances between instances.",
        over=["inputs", "configurations"], quantifier="all data sets with more instances than features", tests="Two fixed data sets.",
        files=[PIL], mechanism=[("analytic solution", PIL), ("numerical solution", PIL)], technique="global-optimum oracle (reduced-rank regression)",
        note="Exploration: the attainable optimum is computed in closed form; 5% slack for the numerical trials (all observed were within 2%).",
    ),
    dict(
        id="H01", title="Predictions, cross-validation and their quality belong together",
        statement="For each algorithm, the predicted labels and probabilities are those of the reported model at every instance's (standardised) coordinates, the model is trained on exactly that algorithm's labels and weights with the reported hyper-parameters (the given ones, if given), "
        "and the cross-validated labels and probabilities come from models that did not see the instance. The confusion matrices, accuracy, precision and recall are those of the cross-validated labels, results repeat, and algorithms do not influence each other.",
        over=["inputs", "configurations"], quantifier="all instance spaces, kernels, weights, fold numbers and ways of choosing hyper-parameters",
        tests="The tests of this step take a quarter of an hour, are left out of the reliable set, and compare mean qualities with loose limits.", files=[PYT],
        mechanism=[("model fitting and cross-validation", PYT)], technique="re-training oracle: every reported prediction recomputed from the reported model",
        note="Exploration: hundreds of problems with given parameters, fewer with searches; labels within the solver's tolerance of the boundary are not judged.",
    ),
    dict(
        id="H02", title="Each instance's selected algorithm, and the summary of selections, are right",
        statement="The algorithm selected for an instance is, among those predicted good on it, the one with the highest precision, and there is none exactly when no algorithm is predicted good; the fallback then is the algorithm most often good. "
        "The summary table has, for each algorithm, the oracle and the selector, the averages, deviations and rates of exactly those instances; the model numbers selections as it does best algorithms.",
        over=["inputs", "configurations"], quantifier="all predictions, from none to all algorithms good, any number of algorithms",
        tests="No reliable test looks at the selections or the summary.", files=[PYT, DMOD], mechanism=[("algorithm selection", PYT), ("summary", PYT)],
        technique="definition oracle over generated prediction problems", note="Exploration: every selection and every cell of the summary is recomputed.",
    ),
    dict(
        id="I01", title="The boundary of the space encloses exactly what it should",
        statement="The boundary is the convex hull of the projections of every combination of feature limits, so every instance is inside; the correlated boundary is the hull of those combinations that no significant correlation above the threshold contradicts, "
        "lies within the first, and is equal to it when nothing is left. Inputs are not changed.",
        over=["inputs", "configurations"], quantifier="all feature tables, projections, thresholds and significance levels", tests="Two data sets are compared with reference output.",
        files=[CLO], mechanism=[("corner enumeration and pruning", CLO)], technique="enclosure monitor with independent correlation test",
        note="Exploration: all corners enumerated; hull judged in both directions without depending on the order of vertices.",
    ),
    dict(
        id="J01", title="Every footprint's numbers are those of its region",
        statement="A footprint's area, number of instances, number of good instances, density and purity are those of its polygon and the instances inside it; it stays within the hull of the instances it was made from, and is empty with zero measures when these are fewer than three. "
        "The summary repeats these numbers, relative to the space where so named, for each algorithm in order.",
        over=["inputs", "configurations"], quantifier="all planar instance sets, labels, selections, purity limits and either kind of performance",
        tests="One data set with one setting; the summary is compared within 5%.", files=[TRA], mechanism=[("footprint metrics", TRA), ("summary", TRA)],
        technique="recounting monitor over generated instance spaces", note="Exploration: areas and counts recomputed from the reported polygons.",
    ),
    dict(
        id="J02", title="Footprints cover the regions the instances support",
        statement="The footprint of a set of instances is the union of alpha shapes of its clusters of unique instances, without the triangles in which fewer than the required share of instances is good; this holds for the space, the hard instances and every algorithm's good (and uncontested best) footprint.",
        over=["inputs", "configurations"], quantifier="all planar instance sets with one or several clusters, and purity limits", tests="One data set; only areas are looked at.",
        files=[TRA], mechanism=[("clustering of instances", TRA), ("polygon construction", TRA)], technique="independent reconstruction compared by symmetric difference",
        note="Exploration: a second implementation of the method; regions compared as sets, not by vertices.",
    ),
    dict(
        id="J03", title="Two algorithms do not both claim to be best in the same region",
        statement="Where the best footprints of two algorithms overlap, the part in which fewer instances support the claim is removed from that algorithm's footprint (both keep a tie), followed by tightening of what remains; afterwards no two footprints overlap in a region that supports one of them more.",
        over=["inputs", "configurations"], quantifier="all overlapping, impure best regions of any number of algorithms", tests="In the tests' data no contradiction has to be resolved with unequal support (it used to crash).",
        files=[TRA], mechanism=[("contradiction resolution", TRA), ("tightening", TRA)], technique="invariant on reported footprints and independent resolution",
        note="Exploration: overlapping regions are generated deliberately; ties, removals and emptied footprints all have to occur.",
    ),
    dict(
        id="J04", title="Footprints do not depend on the number or timing of threads",
        statement="Computing the footprints with any number of threads, and however these are scheduled, gives the same footprints and summary as with one thread.",
        over=["schedules"], quantifier="all thread counts and interleavings", tests="Tests run one thread count with natural timing.", files=[TRA], mechanism=[("parallel footprint construction", TRA)],
        technique="schedule perturbation (random delays, short switch interval) with a serial reference", note="Exploration: the orders in which threads enter geometry calls are recorded and counted.",
    ),
    dict(
        id="A04", title="A finished space depends only on its data and options",
        statement="For the same metadata and options, the finished instance space is the same whether it is built at once, stage by stage, by iterating or up to a stage and on, on a fresh object or after other builds, in any process, for any hash seed, prior random state or parallel setting. "
        "The model is that of the latest complete build, is not available before all stages have run, and arguments given when running a stage (or until a stage) are those the stage receives.",
        over=["histories", "schedules", "configurations"], quantifier="all data sets, options and sequences of build operations, in all processes",
        tests="No test builds a space twice, or compares two ways of building it; hash seeds and random states are those of the test run.",
        files=[SPACE, SR, SB, SIF, PIL, PYT, TRA], mechanism=[("build entry points and the model", SPACE), ("running of stages", SR)], observe=["model of the finished space", "outputs of stages"],
        technique="differential monitor: whole builds compared across entry points, histories and processes",
        note="Exploration: whole small spaces built in many ways, in child processes with other hash seeds, random states and parallel settings; all outputs compared (1e-9 within, 1e-7 between processes).",
    ),
    dict(
        id="C02", title="In a finished space and its files, everything is about the right instance",
        statement="In a finished space, and in the files written from it, row i of every table, array and label list is about the same instance of the metadata, and column j about the same feature or algorithm, "
        "through every way of dropping or selecting instances (missing data, fractions, index files, density), features (selection lists, correlation, clustering) and algorithms.",
        over=["inputs", "configurations"], quantifier="all tables and combinations of the options that take subsets", tests="Tests look at one stage at a time; nothing traces an instance through all of them into the files.",
        files=[PRE, PREL, SIF, PIL, PYT, TRA, SPACE, SER], mechanism=[("subsets of instances", PREL), ("subsets of features", SIF), ("assembling the model", DMOD)],
        observe=["model of the finished space", "csv files"], technique="provenance tracing: every reported row and column identified with its origin by value",
        note="Exploration: unique names and values let every row and column of the result be traced back to the metadata.",
    ),
    dict(
        id="J05", title="The footprints of a finished space are about its own instances",
        statement="The good, best, space and hard footprints of a finished space are those of the space's own coordinates and of its measured (or, with use_sim, predicted) labels and best algorithms, each belonging to the algorithm it is listed for.",
        over=["inputs", "configurations"], quantifier="all data sets and options", tests="TRACE is only tested alone, on inputs prepared by another program.",
        files=[TRA, PREL, PYT, SPACE], mechanism=[("choice of measured or predicted labels", TRA), ("numbering of best algorithms", PREL)],
        technique="independent reconstruction from the finished model, compared by symmetric difference",
        note="Exploration: whole small spaces; one known finding (numbering of the measured best algorithms).",
    ),
    dict(
        id="K01", title="The csv files say exactly what the model says",
        statement="Every csv file has the model's values, each in the row of its instance (or feature) and the column of its feature, algorithm or coordinate, under their labels as given; footprint and boundary files have the vertices of every part and hole of the polygon. "
        "A file is written for each non-empty footprint.",
        over=["inputs"], quantifier="all finished models: any labels, missing cells, selected features, footprints with parts and holes", tests="One model is saved and compared with reference files.",
        files=[SER, DMOD, "instancespace/data/model.py"], mechanism=[("csv serialisation", SER)], observe=["written files"], technique="read-back oracle over generated models",
        note="Exploration: each cell read back with a separate csv reader and compared with the model.",
    ),
    dict(
        id="K02", title="Colours in the web files are proportional to the values",
        statement="In the files for the web, each colour of a feature or performance is the value's position between the smallest and largest value (of its column, or of all columns where so named) on a scale from 0 to 255; missing and constant values have valid colours; the colour table is complete, and the other values are the model's.",
        over=["inputs"], quantifier="all finished models, with missing, constant and extreme values", tests="One model without missing or constant values.",
        files=[SER], mechanism=[("colour scaling", SER)], observe=["written files"], technique="read-back oracle over generated models", note="Exploration: every colour recomputed from the model; rounding either way is allowed.",
    ),
    dict(
        id="K03", title="Graphs show the model",
        statement="Each graph that is saved shows every instance at its own coordinates with the value, group or colour that the model has for it, the legend or scale that goes with them, and the regions (with their parts and holes) of the right footprints; there is one for every feature, algorithm and summary.",
        over=["inputs", "configurations"], quantifier="all finished models with any number of algorithms, sources and instances", tests="Tests only check that files with the names exist.",
        files=[SER], mechanism=[("drawing", SER)], observe=["figures at the moment they are saved"], technique="figure monitor (hooked Figure.savefig) judged against the model",
        note="Exploration: the contents of each figure are compared at the moment it is saved; pictures themselves are only checked for presence.",
    ),
    dict(
        id="K04", title="Saving changes nothing but the files it names, and repeats",
        statement="Saving in any order and any number of times writes the same files with the same contents, changes neither the model nor other files, open figures, drawing settings or random state, and refuses what is not a directory. "
        "Archives contain exactly the directory's files, and the mat file the model's values and labels.",
        over=["histories", "inputs"], quantifier="all finished models, orders of saving and directory contents", tests="Each way of saving is called once.",
        files=[SER, MOD], mechanism=[("saving", MOD), ("serialisers", SER)], observe=["model, directory and drawing state before and after"], technique="before/after state monitor over random saving histories",
        note="Exploration: deep snapshot of the model, directory, figures, settings and random state around every save.",
    ),
    dict(
        id="M01", title="Tables with missing cells can be built into a space",
        statement="A table with some missing features or performances, which is allowed though not recommended, can be built completely; every instance with some feature and some performance is in the space, and coordinates and predictions are defined.",
        over=["inputs", "configurations"], quantifier="all tables with a few missing cells, with or without feature selection, with either projection", tests="All test data are complete.",
        files=[PRE, PREL, SIF, PIL, PYT], mechanism=[("handling of missing values", PREL), ("handling of missing values in the projection", PIL)],
        technique="outcome monitor over whole builds with injected missing cells", note="Exploration: each way in which missing cells stop the build is identified by stage and cause; four are known findings.",
    ),
    dict(
        id="A05", title="Spaces built at the same time do not affect each other",
        statement="Several instance spaces, of the same or of different tables, can be built at the same time in one process, by taking turns at their stages or each in a thread of its own: "
        "each gives exactly what it gives when built alone, changes neither the metadata nor the options it was given, and tables saved at the same time are those saved one after the other.",
        over=["schedules", "histories"], quantifier="all sets of spaces, orders of their stages and interleavings of their threads",
        tests="Tests build one space at a time in one thread; state shared by the process (class attributes, random generators, generators inside libraries) only shows when builds overlap.",
        files=[SPACE, SR, SIF, PYT, PREL, PIL, TRA, SER], mechanism=[("stage runner", SR), ("feature selection", SIF), ("prediction", PYT)],
        observe=["outputs of every stage", "written files"], technique="concurrent executions compared with the same builds alone, under preemption stress",
        note="Exploration: random sets of 2-4 spaces stepped by turns, and in threads switching every 1-1000 microseconds; the interleavings of stages seen are recorded. Drawing of graphs is left out: matplotlib's current figure belongs to the process.",
    ),
    dict(
        id="C03", title="Names, and the order of rows and columns, are immaterial",
        statement="Giving instances, sources, features or algorithms other names changes no number of a space, only the labels, each to its new name. "
        "Another order of the table's rows, feature columns or algorithm columns gives the same values for each instance, feature and algorithm after cleaning, labelling and scaling, "
        "the same features by correlation, the same analytic projection up to reflection and rotation, the same boundary and, for algorithms, the same footprints; random choices and ties excepted.",
        over=["inputs", "configurations"], quantifier="all tables, renamings and permutations", tests="Each test uses one table in one order with one set of names.",
        files=[META, PRE, PREL, SIF, PIL, CLO, PYT, TRA], mechanism=[("reading the table", META), ("labels and scaling", PREL), ("feature selection", SIF), ("projection", PIL), ("boundary", CLO), ("footprints", TRA)],
        observe=["outputs of every stage"], technique="metamorphic monitor over pairs of executions",
        note="Exploration: whole spaces renamed; stages under permutation of rows, features and algorithms. Folds, subsets drawn at random and the order-dependent density filter are not judged under permutation of rows.",
    ),
    dict(
        id="A06", title="Each step gives the same by itself, again and again, as in a space",
        statement="Each step of the method (cleaning, labelling and scaling, feature selection, projection, prediction, boundary, footprints) can be carried out by itself through its public method: "
        "given the inputs it had in a space it gives what it gave in the space, however often and in whatever order steps are repeated and whatever the state of the process's random generators, and it leaves what it is given unchanged.",
        over=["inputs", "histories"], quantifier="all inputs that steps have in spaces, all orders and repetitions of steps",
        tests="Tests call each step once on fixed inputs, most of them through one entry point.",
        files=[PRE, PREL, SIF, PIL, PYT, CLO, TRA], mechanism=[("public method of each step", PRE), ("public method of each step", PREL), ("public method of each step", SIF), ("public method of each step", PIL),
                                                              ("public method of each step", PYT), ("public method of each step", CLO), ("public method of each step", TRA)],
        observe=["outputs and arguments of every step"], technique="recorded step calls replayed in random order and compared",
        note="Exploration: every step of random spaces is repeated twice by itself, in random order, and compared with the recorded call; arguments are compared bit by bit.",
    ),
    dict(
        id="A07", title="Plugins take part in a space as documented",
        statement="A space can be made of any stages: with plugins added, and with stages of the user's in the place of its own, listed in any order. A plugin runs once, where the values it reads and its RunBefore/RunAfter declarations allow, "
        "and receives the latest value of everything it names (results, metadata, options or initial values of its own); what it changes is what every later reader, the results and the model have, and stages that read a value run after those that change it; "
        "a plugin that only looks changes nothing, even if it overwrites what it was given.",
        over=["configurations", "inputs", "histories"], quantifier="all sets of plugins, their declarations, order of listing and ways of running a space",
        tests="Tests build the standard stages, or toy stages without a space; the example plugin is not executed.",
        files=[SPACE, SB, SR, ST, "instancespace/model.py"], mechanism=[("stages and additional initial inputs", SPACE), ("stage resolution", SB), ("stage runner", SR)],
        observe=["inputs and outputs of every stage and plugin"], technique="recorded stage calls judged by a dataflow trace checker and a sequential reference",
        note="Exploration: one to three plugins of eight kinds, observers, replaced stages; build, iteration, run_until_stage and single stages. One known finding (a plugin that makes SIFTED wait lets PILOT overtake it).",
    ),
    dict(
        id="A08", title="Building, loading and saving leave the process as it was, even when broken off",
        statement="Building a space in any way, loading one from good or bad files, and saving one leave everything else in the process as it was: random states, working directory, environment, "
        "error handling of numpy, warnings, settings of matplotlib, pandas and logging, open figures, threads, open files and temporary files. Nothing a space made is kept when the space and its results are let go. "
        "This also holds when a build or a save is broken off at any moment, the interruption reaches the caller, and the build or save can then be made again with the result it would have had.",
        over=["inputs", "crash_points", "configurations"], quantifier="all spaces, ways of running, saving and loading them, and calls at which they may be broken off",
        tests="Tests look at results; none looks at the process, and none breaks anything off.",
        files=[SPACE, SIF, PYT, TRA, PIL, PREL, SER, META, OPT], mechanism=[("random state around the genetic algorithm", SIF), ("figures", SER), ("threads", TRA), ("reading files", META)],
        observe=["state of the process before and after"], technique="snapshots of the process around real runs, with faults injected at random calls; weak references to results",
        note="Exploration: 27 properties of the process compared around builds, loads and saves in processes with settings of their own; builds and saves broken off at random calls into or out of the package (an exception raised by a trace function); parallel builds in a process of their own. joblib's reusable pool of workers is not counted.",
    ),
    dict(
        id="K05", title="A save writes all of its files or says that it did not",
        statement="When a file cannot be written (its place is taken by a folder, the disk is full, the output directory does not exist or is a file), or one to be archived cannot be read, the save raises an exception; it never returns as if everything had been saved. "
        "A failed save leaves the model, other files and open figures as they were and nothing behind but files it was going to write, and the same save afterwards writes everything.",
        over=["fault_sequences", "inputs"], quantifier="all models, forms of saving, and files or amounts of data at which writing may fail",
        tests="Tests save to good directories; two silent losses (the mat file, and graphs of binary performance) went unseen.",
        files=[SER, "instancespace/model.py"], mechanism=[("csv and web files", SER), ("graphs", SER), ("mat file", SER), ("archive", "instancespace/model.py")],
        observe=["exceptions", "written files", "open figures", "model"], technique="fault injection (folders in the way, limits on file size, missing directories) with a differential oracle on the files",
        note="Exploration: random models saved in five forms under four kinds of real faults; files after the retry compared byte by byte with a save without faults.",
    ),
]
