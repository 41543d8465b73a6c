"""Rewrites the "fixed" list of known_findings.json from the fix: commits in /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHAT = {  # subject of the commit -> (property, what failed)
 "ignore missing values in PRELIM medians, ranges and minima": ("C09", "one missing feature value made the column's median, range, bounds (and minimum, C11) missing and lost the bounding"),
 "normalise the relative performance measure when it is in use": ("C11", "in relative mode the raw performances, not the relative measure, were normalised"),
 "hand filtered instance labels on to later stages": ("C12", "after subsetting, instance labels and sources kept all instances"),
 "keep the last instance and ignore number 0 in index files": ("C12", "an index file could never keep the last instance, and number 0 kept it"),
 "do not modify the initial input set while resolving stages": ("C01", "building added stage outputs to the caller's set of initial inputs"),
 "resolve stages that have no outputs": ("C01", "a stage without outputs was never scheduled"),
 "recognise RunBefore and RunAfter requests": ("C03", "ordering requests were treated as data inputs or ignored"),
 "refuse a wave in which one stage overwrites another's input": ("C02", "a stage could consume a value rewritten in the same wave"),
 "keep separate snapshots of the data available to each schedule": ("C04", "re-running a stage saw values produced by later waves"),
 "run_until_stage also runs the stage it is given": ("C04", "run-until stopped before the stage"),
 "provide the model of the latest complete run": ("C04", "the model of an earlier run was returned after a new one"),
 "load whole-number metadata as floating point matrices": ("C05", "whole-number columns gave integer matrices, which later lost fractions"),
 "keep labels and sources as series for single-row metadata": ("C05", "a one-row file gave a scalar label"),
 "make every section optional in InstanceSpaceOptions.default": ("C06", "sections other than the given ones were required"),
 "do not replace zeros in the caller's performance matrix": ("C08", "relative mode overwrote zeros of the raw performances"),
 "apply the density filter for whole-number distances": ("C12", "a whole-number minimum distance disabled the density filter"),
 "report the selected feature indices from SIFTED": ("C15", "idx did not hold the selected columns"),
 "apply the SIFTED correlation threshold to absolute correlations": ("C15", "strong negative correlations were dropped"),
 "select feature columns after the SIFTED density filter": ("C15", "after the density filter rows or columns did not match the selection"),
 "evaluate SIFTED candidates on the features they stand for": ("C15", "search candidates were scored on other features than they name"),
 "minimise the prediction error in the SIFTED search": ("C15", "the search kept the combination with the largest error"),
 "honour the SIFTED flag": ("C15", "features were selected although selection was disabled"),
 "index silhouette scores by position when suggesting a cluster count": ("C15", "suggesting a number of clusters failed with an index error"),
 "return every performance row of the PILOT reconstruction": ("C16", "the last algorithms were missing from the reconstruction"),
 "compare columns with their reconstruction in PILOT's fit": ("C16", "the fit compared instances instead of columns"),
 "accept a pre-calculated PILOT solution": ("C16", "a supplied solution was rejected"),
 "keep the PILOT solution in full precision": ("C16", "the solution was rounded to half precision"),
 "report each PYTHIA statistic in its own summary column": ("C19", "accuracy and precision were swapped in the summary"),
 "leave the performances passed to PYTHIA unchanged": ("C19", "the caller's performances were overwritten with missing values"),
 "return the mean and deviation PYTHIA standardises with": ("C19", "mu and sigma were those of the already standardised coordinates"),
 "pass pre-calculated SVM parameters as search lists": ("C19", "supplied parameters made the search fail"),
 "distinguish no selection from the first algorithm in PYTHIA": ("C18", "no selection was reported as the first algorithm, and the summary was off by one algorithm"),
 "select for a single algorithm as for several in PYTHIA": ("C18", "a single algorithm made the stage fail"),
 "refit contradicting TRACE footprints from the points inside them": ("C24", "resolving best footprints that overlap with different purities failed with AttributeError or IndexError"),
 "cluster objects with a single coordinate in TRACE": ("C23", "clustering objects with a single coordinate failed with TypeError"),
 "number selected algorithms from one in the assembled model": ("C25", "the assembled model numbered PYTHIA's selections from zero (-1 for none) although saving and plotting read them from one (0 for none)"),
 "leave the model's summaries unchanged when saving to csv": ("C22", "saving renamed columns of the model's own summaries, so saving changed the model"),
 "give constant and missing values a colour of their own range": ("C22", "constant columns and columns with missing values got undefined colours"),
 "normalise plotted performances individually and globally": ("C27", "individual plots were not scaled to 0-1 and global ones used each column's own range"),
 "plot every algorithm's own portfolio selections and footprint": ("C27", "the last algorithm was left out of portfolio plots and footprints were those of the next algorithm"),
 "keep a fraction or index file selection when density is also on": ("C12", "with a density option also set, the whole data set was handed on as data still to be thinned, and SIFTED then dropped the fraction or index file selection"),
 "bound infinite feature values instead of losing them": ("C09", "an infinite feature value became missing (infinity times zero) instead of the bound"),
 "never prefer a PILOT trial without a topology score": ("C16", "a trial whose projected points all coincide (missing score) was returned in place of the best one"),
 "ignore missing performances in the least PYTHIA weight": ("C19", "with a missing performance, instances at the average got the largest weight"),
}
EXTRA = os.path.join(V, "tools", "fixed_extra.json")
if os.path.exists(EXTRA):
    WHAT.update({k: tuple(v) for k, v in json.load(open(EXTRA)).items()})
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
rows = [l.split(" ", 1) for l in log.splitlines()]
reverted = {s[len('Revert "'):-1] for _, s in rows if s.startswith("Revert ")}
out = []
for h, s in rows:
    if s.startswith("fix: ") and s not in reverted:
        p, w = WHAT[s[5:]]
        out.append(f"fixed: property={p} {h} {w}")
f = os.path.join(V, "known_findings.json")
d = json.load(open(f))
d["fixed"] = out
json.dump(d, open(f, "w"), indent=1)
print(len(out), "fixed", len(d["findings"]), "findings")
