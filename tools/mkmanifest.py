"""Writes MANIFEST.json from the list of checks below (a property is claimed if its module exists)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "bounded exhaustive enumeration of executions of the real code against a reference model"
NOTES = {
    "C20": (ENUM, "every training set of the stated families and every operation sequence up to the depth; the table is compared with re-routed samples, the weighted depth with the brute-force average over all prunings (float64 with float32 error bounds)."),
    "C21": ("stateless exploration of thread schedules of the real code under a controlled scheduler (preemption bounded)", "all interleavings up to the preemption bound of pairs and triples of user calls, with scheduling points at every line of wildwood's Python code and at entries and loop heads of its jitted functions; oracle: each call alone."),
    "C22": ("exhaustive enumeration of small training sets on the real code, metamorphic oracle", "every labelling of seven-row designs (continuous, missing, categorical, mixed) for seven configurations, each fitted again after every transformation of a list (monotone recodings, renamings, dtypes, containers, power-of-two scalings); oracle: equality of leaves and predictions to the bit."),
    "C23": ("exhaustive enumeration of sequences of rows on the real code", "all batches up to three rows (four in thorough) over an alphabet of nine rows with seen, unseen, missing and unknown values, in every container, and batches around machine-word sizes; oracle: the row alone."),
    "C01": (ENUM, "every training set, in-bag/out-of-bag layout and configuration of the stated families; oracle: brute-force sum over all prunings (float64 with float32 error bounds). Trusts the node splits as read from the tree (decided by C03/C04)."),
    "C02": (ENUM, "every small training set, weighting and dirichlet of the stated families; node statistics recomputed from re-routed samples."),
    "C03": (ENUM, "every small dataset, growth limit and bin row of the stated families; samples re-routed by a reference router."),
    "C04": (ENUM, "every small dataset, criterion and strategy of the stated families; the best admissible split is recomputed by brute force with float32 tolerances; ties are free."),
    "C05": (ENUM, "every column over a value alphabet up to a length, every max_bins, dtype, container, query; reference binning rule."),
    "C06": (ENUM, "every pair of fit and transform columns over a category alphabet; reference mapping."),
    "C07": (ENUM, "the complete decision table container x dtype x distinct values x cat_min_categories x declaration; reference table."),
    "C08": (ENUM, "all small matrices, all bit widths, all row counts around word boundaries; oracle: the matrix itself."),
    "C09": ("stateless exploration of thread schedules of the real code under a controlled scheduler (preemption bounded)", "all task assignments, and all interleavings up to the preemption bound with scheduling points at every line of wildwood's Python code and at entries and loop heads of its jitted functions; oracle: the sequential forest, bit by bit."),
    "C10": ("stateless exploration of thread schedules of the real code under a controlled scheduler (preemption bounded)", "all interleavings up to the preemption bound (Python lines, locks, jitted functions, the middle of in-place updates of shared buffers); oracle: the sequential result."),
    "C11": ("exhaustive enumeration of operation sequences on the real code, conformance to an explicit state model", "every operation sequence up to the depth over the alphabet; oracle: fresh fits with the model's current parameters."),
    "C12": (ENUM, "all sample sizes and seeds in range; every multiplicity pattern observed for small n."),
    "C13": (ENUM, "all label vectors over label alphabets, both multiclass modes; reference combination of the trees."),
    "C14": ("exhaustive enumeration of fit histories and input containers on the real code", "every history of fits up to the depth over a menu, every container and layout; oracle: fresh process results and byte-wise snapshots."),
    "C15": ("exhaustive enumeration of parameter assignments (value x route x state) on the real code", "complete table of boundary values; oracle: documented domains."),
    "C16": ("exhaustive enumeration of random outcomes of the feature draw and of grown trees", "all outcomes of the generator for up to 6 features; existence of a drawn subset explaining every node."),
    "C17": (ENUM, "all option combinations on tiny datasets; oracle recomputed from the raw rows."),
    "C18": ("exhaustive crash-point and error injection of the real fetch code", "every crash point, torn write and error of every loader, and pairs of them; the network is a stub below urllib.request.urlopen."),
    "C19": (ENUM, "every size on both sides of each capacity, every chain depth; node statistics and routing recomputed."),
}
LEVELS = {"C18": "fault_enumeration"}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "wwmc", "props", p.lower() + ".py")):
        t, n = NOTES[p]
        checks.append(dict(property=p, quick_cmd="./run.sh %s" % p, thorough_cmd="VERIF_TIER=thorough ./run.sh %s" % p,
                           technique="model checking: " + t, level=LEVELS.get(p, "model_checking"), level_note=n))
    else:
        na.append(dict(property=p, reason="the check is not built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: seams are patched at run time by the checks.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
