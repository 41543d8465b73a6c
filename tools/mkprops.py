"""Writes properties.jsonl."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(qtext.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


SB, SR = "instancespace/stage_builder.py", "instancespace/stage_runner.py"
ST = "instancespace/stages/"

p("C01", "Resolved stage schedules are complete and runnable",
  """Whenever a collection of stages is accepted, the resulting schedule contains every added
  stage exactly once and runs a stage only after each of its declared inputs (same name and same
  type) is an initial input or an output of a stage in an earlier wave. When every value has a single source
  and no stage asks to run before or after another, building succeeds whenever such an order exists; when none
  exists it is refused with an error. Building never changes the caller's set of initial inputs.""",
  ["programs", "configurations"],
  "All small collections of stages with arbitrary input/output signatures and initial inputs.",
  "The tests build one hand-written two-stage pipeline and the default pipeline.",
  [SB, SR], [("wave-by-wave resolution", SB), ("runnability check", SR)])

p("C02", "Stages in one wave never conflict; rewriting stages come first",
  """No two stages scheduled in the same wave produce the same value, and no stage in a wave consumes
  a value that another stage of that wave produces. A stage that rewrites one of its own inputs is
  scheduled strictly before every other consumer of that value that becomes runnable at the same time,
  and two stages rewriting or producing the same value at the same time are refused as ambiguous. When each value is rewritten by
  at most one stage and has otherwise a single source, a collection is accepted whenever such an order exists.""",
  ["programs", "schedules"],
  "All small collections of stages with arbitrary signatures; any order of stages inside a wave.",
  "Whether an arbitrary in-wave order matters only shows for particular stage signatures and hash orders.",
  [SB], [("mutating stage rule and shared-output check", SB)])

p("C03", "Run-before and run-after requests are honoured",
  """A stage that declares it must run before (or after) another stage present in the collection is scheduled in an
  earlier (or later) wave than that stage, and requests that cannot be met make the build fail. Such a
  declaration is not a data input: it never has to be supplied, is not required to be available, and is rejected as an output.""",
  ["programs", "configurations"],
  "All small collections of stages with arbitrary ordering requests, including chains and cycles.",
  "No test uses an ordering request.",
  [SB, SR, ST + "stage.py"], [("ordering restrictions", SB)])

p("C04", "Stages see exactly the data a fresh run would give them",
  """Under any sequence of run-all, run-until, iterate and run-single-stage calls, a stage receives for each
  input the override given for that call, else the latest value produced upstream in the current run, else the initial value.
  Re-running a stage discards everything produced in later waves and gives the stage the same
  inputs it had before, a stage whose upstream waves have not run is refused, and overrides do not leak into other stages.
  Running until a stage runs every earlier wave and that stage, nothing later, and returns the accumulated values.""",
  ["histories"],
  "All bounded call histories over pipelines including stages that rewrite their inputs.",
  "Tests run one fixed two-stage history without rewriting stages.",
  [SR, "instancespace/instance_space.py"], [("snapshots, rollback and progress", SR)])

p("C05", "Metadata columns are partitioned without loss or misalignment",
  """Loading metadata yields the label column as text labels, the source column when present,
  every feature column and every algorithm column under its own name in file order, with each value in the row and column
  it has in the file and prefixes matched regardless of case. Features and performances are floating point matrices whatever the
  number of rows or the kind of numbers in the file.""",
  ["inputs"],
  "All tables up to the bound: arbitrary column name kinds, letter case, order, and cell values.",
  "Tests use fixed CSV files with one column order.",
  ["instancespace/data/metadata.py"], [("column classification", "instancespace/data/metadata.py")])

p("C06", "Option loading honours every key and rejects unknown ones",
  """Loading options from a nested mapping sets every recognised key (documented alias names included) to
  the supplied value in the field of the same meaning, fills every absent field with its documented default, and rejects
  unknown sections or keys with an error (a key named "_" is deliberately ignored). The defaults obtained without arguments equal those of loading an empty mapping,
  and the derived preparation options carry the corresponding performance, bound and normalise settings unchanged.""",
  ["inputs", "configurations"],
  "All option mappings: any subset of keys, arbitrary values, any unknown key or section.",
  "Tests load a few fixed JSON files.",
  ["instancespace/data/options.py", "instancespace/data/default_options.py"],
  [("field loading and alias mapping", "instancespace/data/options.py")])

p("C07", "Preprocessing keeps the right rows and columns, aligned",
  """Preprocessing keeps exactly the requested features and algorithms (all when none is requested), values staying under their own name,
  then drops exactly the instances whose features are all missing or whose performances are all missing, and exactly the features
  missing in at least 20% of the remaining instances (of which there is at least one). Labels, sources and
  the raw and working matrices keep one row per surviving instance, in order, all describing the same instance.""",
  ["inputs", "configurations"],
  "All missing-value patterns, values and selections up to the bound.",
  "Tests check a handful of concrete matrices.",
  [ST + "preprocessing.py"], [("selection and missing-value removal", ST + "preprocessing.py")])

p("C08", "Binary performance, best algorithm and easiness follow the definition",
  """For every instance the best performance is the maximum (or minimum) over its algorithms ignoring missing values, the reported best algorithm (numbered from 1)
  attains it, and an algorithm is good exactly when its performance meets the absolute threshold or, in relative mode on positive
  performances, is within the given fraction of the best; a missing performance is never good. The number of good algorithms is
  their count, and an instance is easy exactly when that count exceeds the threshold fraction of the number of algorithms. The raw performances are left unchanged.""",
  ["inputs", "configurations"],
  "All performance matrices (with missing values) up to the bound, arbitrary thresholds, the four measure modes.",
  "Tests compare one dataset in a few modes; ties, zeros and missing values are rare in it.",
  [ST + "prelim.py"], [("performance labelling", ST + "prelim.py")])

p("C09", "Outlier bounding clamps to median plus or minus five ranges",
  """With bounding on, every feature value above median + 5 interquartile ranges becomes that upper bound, every value below
  median - 5 ranges becomes the lower bound, and all other values are unchanged; with bounding off no value changes. The reported
  median, range and bounds per feature are those of the input column.""",
  ["inputs"],
  "All feature matrices up to the bound.",
  "Tests check one dataset with few outliers.",
  [ST + "prelim.py"], [("bounding", ST + "prelim.py")])

p("C10", "No stage alters the data it is given",
  """Running a stage leaves every input (feature and performance matrices, labels, sources, selections, options and nested records)
  holding exactly the values it held before, whatever options are on. So raw data stay raw (PREPROCESSING returns one array as working
  and as raw data), a stage can be run again on the same inputs, and every consumer of a value sees what its producer returned.""",
  ["inputs", "configurations", "histories"],
  "All data and option combinations of the other checks of the stages, up to their bounds.",
  "Tests look at outputs only.",
  [ST + "prelim.py", ST + "preprocessing.py", ST + "sifted.py", ST + "pilot.py", ST + "pythia.py", ST + "trace.py",
   ST + "cloister.py"],
  [("a stage's _run", ST + "prelim.py")])

p("C11", "Normalisation parameters reproduce the normalised data",
  """With normalisation on, shifting each feature by its reported minimum, applying the power transform with the reported
  exponent, and standardising with the reported mean and deviation reproduces the returned feature column, and the same holds for performances. The values
  normalised are the bounded features and the performance measure of the chosen mode; with normalisation off both are returned unchanged apart from bounding and the relative measure.""",
  ["inputs", "configurations"],
  "All matrices and flag combinations up to the bound; the power transform is an arbitrary function of its exponent and data.",
  "Tests compare only outputs for one dataset and absolute mode.",
  [ST + "prelim.py"], [("normalise", ST + "prelim.py")])

p("C12", "Subsetting keeps every per-instance output aligned",
  """When a fraction, an index file or a density filter selects a subset of instances, exactly the selected instances survive, in order,
  in every per-instance output (features, performances, raw values, labels, sources, goodness, best values, easiness), each row describing the same instance
  as before, and later stages receive these. Index files hold 1-based instance numbers, out-of-range entries are ignored; the density filter also hands on the unfiltered
  data unchanged (only then: when a fraction or index file selected, there is nothing left to thin by density), and without any selection nothing is dropped.""",
  ["inputs", "configurations"],
  "All subsets, index lists and data up to the bound.",
  "Tests check one saved split for some outputs.",
  [ST + "prelim.py"], [("filter after preparation", ST + "prelim.py")])

p("C13", "Density filtering drops exactly the near-duplicates",
  """Scanning instances in order, an instance is dropped exactly when an earlier retained instance lies within the minimum
  distance in feature space and satisfies the chosen similarity (none, performance distance within the distance scaled by the square root of algorithms per feature, common goodness on all algorithms,
  or both). An instance is flagged dissimilar exactly when no earlier retained instance lies within the distance, and flagged
  visa exactly when it is retained although one does; uniformity is one minus the coefficient of variation of nearest-neighbour distances of the retained instances.""",
  ["inputs", "configurations"],
  "All data sets up to the bound, all four similarity types, any positive distance.",
  "Tests compare a few fixed data sets with symmetric structure.",
  ["instancespace/utils/filter.py"], [("greedy filter", "instancespace/utils/filter.py")])

p("C14", "Repeating a build gives the same results",
  """Every random choice (fractions of the instances, cluster and genetic search, starting points, folds, hyper-parameter samples and
  searches) has a fixed seed: running a stage again on the same inputs and options, in the same process or a new one and whatever random numbers were drawn in
  between, returns the same outputs; for feature selection and algorithm prediction also when parallel processing is switched on or the number of cores changes.""",
  ["inputs", "histories", "configurations"],
  "Arbitrary results of every seeded library call, arbitrary state of every unseeded generator, two runs.",
  "Tests run each stage once, or with a seed of their own.",
  [ST + "prelim.py", ST + "sifted.py", ST + "pilot.py", ST + "pythia.py"],
  [("seeds", ST + "sifted.py"), ("seeds", ST + "pythia.py")])

p("C15", "Feature selection outputs agree with each other",
  """The selected feature indices, the selected names and the returned feature matrix always describe the same columns of the input
  in the same order, without duplicates, for every path through the selection (disabled, too few features, correlation only, clustered); with the selection disabled every feature is kept. The correlation
  step keeps a feature exactly when it is the strongest for some algorithm or its absolute significant correlation with some algorithm reaches the threshold, and refuses only when fewer than two features reach it.
  Clustering keeps exactly one feature per cluster, and of the combinations the search evaluates the one with the smallest worst prediction error. With a density filter, rows are those the filter keeps of the
  unfiltered data on the selected features.""",
  ["inputs", "configurations"],
  "All correlation tables, significance patterns, cluster assignments and search results up to the bound.",
  "The selection tests are excluded from the stable suite and pin one dataset.",
  [ST + "sifted.py"], [("selection", ST + "sifted.py")])

p("C16", "Projection outputs satisfy their defining equations",
  """The returned coordinates equal the features multiplied by the returned projection, the reconstruction error and per-column fit are those of the
  returned matrices against the input data, and among numerical trials the one with the best topology score is returned. A supplied solution is used as given,
  the optimiser minimises the mean squared reconstruction error, and the analytic solution consists of leading eigenvectors with matching reconstruction.""",
  ["inputs", "configurations"],
  "All data and all optimiser outcomes up to the bound; eigenvectors are arbitrary.",
  "Tests check perf and optimum of one dataset to a tolerance.",
  [ST + "pilot.py"], [("analytic and numerical solutions", ST + "pilot.py")])

p("C17", "Space boundary covers every instance and drops only impossible corners",
  """Boundary candidates are exactly the projections of the corners of the box of feature ranges, less those corners that pair
  a feature maximum with a minimum of a strongly positively correlated feature, or two equal extremes of a strongly negatively correlated pair; insignificant correlations
  never exclude a corner. The reported boundaries are the hull of the candidates and of the surviving candidates, in hull order; when the second hull cannot be formed
  the first is used. Features take values of both signs, as standardised ones do.""",
  ["inputs", "configurations"],
  "All feature ranges, correlation and significance patterns, thresholds and projections up to the bound.",
  "Tests use a few datasets, in most of which no pair or every pair is excluded.",
  [ST + "cloister.py"], [("corner enumeration and exclusion", ST + "cloister.py")])

p("C18", "Algorithm selection follows predictions and precision",
  """For each instance the selected algorithm (numbered from 0) is, among those predicted good with a positive precision, the one with the highest precision, and none (-1) when there is
  no such algorithm; the fallback selection then uses the algorithm most often good. The summary
  reports for each algorithm, the oracle and the selector the average and deviation of performance over all and over the selected instances, the probability of good, and the selector's precision and recall,
  all computed from the very predictions and selections returned.""",
  ["inputs"],
  "All prediction, precision, goodness and performance tables up to the bound.",
  "The tests of this stage are excluded from the stable suite and check summary tables loosely.",
  [ST + "pythia.py"], [("selection and summary", ST + "pythia.py")])

p("C19", "Each algorithm's predictor is trained and scored on its own data",
  """Every algorithm gets a model trained on the standardised coordinates, its own goodness labels, its own instance weights (when weights are requested) and,
  when given, its own parameters, with the requested kernel, search and number of folds; its reported predictions, probabilities, parameters, cross-validated predictions and confusion counts,
  accuracy, precision and recall are those of that model, also in the summary. Standardisation parameters are those of the coordinates
  passed in, and the caller's data are never modified. Scores shown as cross-validated come from cross-validated predictions.""",
  ["inputs", "configurations"],
  "All labels, data and model outcomes up to the bound; learners return arbitrary predictions.",
  "Tests of this stage are excluded from the stable suite; a single dataset cannot expose cross-wiring.",
  [ST + "pythia.py"], [("per-algorithm training loop", ST + "pythia.py")])

p("C20", "Footprint statistics are consistent with points and region",
  """For every footprint, its area is the region's area, element and good-element counts are the instances, respectively good instances, inside the
  region, density is elements per area and purity is good elements per element; an empty region has all statistics zero. The summary reports for each algorithm
  these numbers, normalised by those of the whole space.""",
  ["inputs"],
  "All point sets, goodness vectors and containment relations up to the bound.",
  "Tests compare one dataset's summary.",
  [ST + "trace.py"], [("footprint statistics and summary", ST + "trace.py")])

p("C21", "Footprint construction does not depend on completion order",
  """The footprints and summary are the same whatever order the per-algorithm computations finish in and however many workers are used: position i of every
  result belongs to algorithm i.""",
  ["schedules"],
  "All completion orders of the parallel per-algorithm tasks up to the bound.",
  "A test run sees one completion order.",
  [ST + "trace.py"], [("thread pool collection", ST + "trace.py")])

p("C22", "Saved tables carry the right values under the right labels",
  """Each table written by save_to_csv has one row per instance (or boundary point, algorithm or projection axis) and one column per label, each cell
  holding the model's value for exactly that pair of labels; raw features are those of the selected columns. Saving leaves the model unchanged. Each colour table of save_for_web gives every value a whole
  number from 0 to 255 that never decreases with the value, is 0 for the smallest and 255 for the largest (of its column, or of the table where colours are global), also when
  values are equal; a missing value has no colour.""",
  ["inputs", "configurations"],
  "All model contents up to the bound, including selections that drop features or instances, constant columns and missing values.",
  "Tests compare against one saved model.",
  ["instancespace/_serialisers.py", "instancespace/model.py"], [("csv and colour scaling", "instancespace/_serialisers.py")])

p("C23", "Density clustering groups exactly the connected dense objects",
  """Two objects are neighbours when they are at most the radius apart. An object belongs to a cluster exactly when a chain of neighbours links it to an
  object that has more than k neighbours counting itself; two such objects share a cluster exactly when a chain links them; all others are noise (-1), clusters are numbered from 1
  without gaps, the default radius is the one at which k of uniformly spread objects are expected, and TRACE takes for k a twentieth of the instances in the set, rounded up, at least 3 and at most 50.""",
  ["inputs"],
  "All point sets up to the bound, every radius and density threshold.",
  "Tests use a few hand-placed blobs.",
  [ST + "trace.py"], [("dbscan", ST + "trace.py"), ("epsilon", ST + "trace.py")])

p("C24", "Contradicting best footprints are resolved in favour of the purer one",
  """Where the best footprints of two algorithms overlap, the one whose instances are the purer part of the overlap is kept and the other is refitted to its own instances outside
  the overlap (and has no region when fewer than three are left); footprints that do not overlap, or tie in the overlap, are left as they are. Afterwards no overlap with a purer
  side is left, the statistics are those of the final regions, and resolving always terminates without error.""",
  ["inputs"],
  "All overlap patterns and purities over an abstract algebra of regions.",
  "Tests do not construct contradictory footprints with chosen purities.",
  [ST + "trace.py"], [("contradiction resolution", ST + "trace.py"), ("refitting", ST + "trace.py")])

p("C26", "A footprint is its dense groups' hulls without impure parts",
  """The footprint of a set of instances is the union of the hulls of its dense groups, minus every triangle of a hull that contains instances of which a smaller
  share than the purity threshold belongs to the set; a set with fewer than three distinct positions, or without a dense group, has an empty footprint. This holds alike for
  the whole space, good, best and beta footprints, with predicted or measured performances as the options ask.""",
  ["inputs", "configurations"],
  "All hulls, triangles, thresholds and choices of instances up to the bound.",
  "Tests compare the statistics of one dataset.",
  [ST + "trace.py"], [("footprint construction", ST + "trace.py")])

p("C25", "The assembled model exposes each stage's own results",
  """Every field of the assembled model holds the value of the stage output of the same meaning from the final run: data, selected
  features, projections, boundaries, predictions, footprints and options are neither swapped, dropped nor stale.""",
  ["inputs"],
  "All stage outputs (treated as opaque distinct values).",
  "Tests only check that building runs.",
  ["instancespace/model.py", "instancespace/data/model.py"], [("assembly", "instancespace/model.py")])

p("C27", "Saved plots show each instance's own value or group, and each algorithm's own footprint",
  """In every plot of save_graphs each instance appears exactly once, at its projected position. Value plots show its feature value, or its raw performance, scaled to 0 to 1 within the
  column (individual) or over all algorithms (global), in the order of the values, also with constant or missing values, or its fraction of good algorithms; class plots show it among the good or bad
  instances of that algorithm (actual, predicted); portfolio plots among those of its best or selected algorithm, every algorithm included, or of none; source plots among those of its source.
  Footprint plots show the polygons of that algorithm's own footprint; with use_sim they use predictions and selections, otherwise actual performances.""",
  ["inputs", "configurations"],
  "All model contents up to the bound, whatever algorithms are selected.",
  "Tests only check that files appear.",
  ["instancespace/_serialisers.py", "instancespace/model.py"], [("plots", "instancespace/_serialisers.py")])

p("C28", "A build uses the metadata and options it was given",
  """Every input of a standard stage that no stage provides holds, unchanged, the metadata's value or the options section of its own name, whatever their contents and whether the space is built, iterated or
  run up to a stage; the preparation options hold the corresponding performance, bound and normalise settings. A space made of two files, or of the metadata.csv and options.json of a folder, has the
  metadata and options those files hold, and none is made when either cannot be read or has unknown options.""",
  ["inputs", "configurations"],
  "All metadata values and all option values at once, and every pair of readable or unreadable files up to the bound.",
  "Tests build from one folder with one set of options.",
  ["instancespace/instance_space.py", "instancespace/data/options.py"],
  [("inputs of the stages", "instancespace/instance_space.py"), ("loading from files", "instancespace/instance_space.py")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                           "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    bad = [x["id"] for x in P if len(x["title"]) > 80]
    print(len(P), bad)
