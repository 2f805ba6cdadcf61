"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
W = "wildwood/"
prop("C01", "Aggregated tree predictions are the exact average over all prunings",
 "With aggregation=True, the prediction of every tree at every input equals sum_T pi(T) exp(-step*L_T) yhat_T(x) / sum_T pi(T) exp(-step*L_T) over ALL prunings T of the grown tree, where L_T is the sample-weighted out-of-bag loss of T (log-loss or squared error), yhat_T(x) the in-bag prediction of T's leaf containing x, and pi the branching-process prior (1/2 per node of T, leaves of the full tree being free). This holds up to float32 rounding for classification and regression, for any step, dirichlet, sample weights and label scale, and the prediction always lies in the convex hull of the predictions of the nodes on the path of x.",
 ["inputs", "configurations"], "all training sets, in-bag/out-of-bag partitions, weights, steps, dirichlet levels, label scales and query points",
 "The tests compare accuracy scores or two runs of the same code on a few datasets (and most classifier tests cannot even run offline); none recomputes the average over prunings, and numerical breakdowns need large losses.",
 [W+"_grow.py", W+"_tree.py", W+"_node.py", W+"_utils.py"],
 [("context tree weighting (log-weights bottom-up)", W+"_grow.py compute_tree_weights"), ("log of half-sum of exponentials", W+"_utils.py log_sum_2_exp"), ("bottom-up mixing along the path", W+"_tree.py tree_classifier_predict_proba, tree_regressor_predict"), ("out-of-bag losses", W+"_node.py compute_node_classifier_context, compute_node_regressor_context")],
 [("log_weight_tree", "log of the weight of the subtree rooted at the node", "node dtype"), ("loss_valid", "weighted out-of-bag loss of the node", "node dtype")],
 ["ForestClassifier.predict_proba", "ForestRegressor.predict", "predict_proba_trees", "predict_trees"])
prop("C02", "Node predictions are the weighted in-bag statistics, smoothed as documented",
 "The prediction of a node is, for classification, (w_k + dirichlet)/(w + n_classes*dirichlet) with w_k the total weight of its in-bag samples of class k, and for regression the weighted mean of the labels of its in-bag samples; with aggregation=False the prediction of a tree at x is exactly that of the leaf containing x. A sample weight w acts as w copies of the line (0 acts as no information), bootstrap multiplicities multiply the weights, and out-of-bag samples never enter a node prediction.",
 ["inputs", "configurations"], "all small training sets, weights (including 0, fractional and large), bootstrap multiplicities, dirichlet levels and query points",
 "Tests only look at aggregate scores; a weight ignored in one place or a sample counted on the wrong side changes scores very little.",
 [W+"_node.py", W+"_grow.py", W+"_tree.py", W+"forest.py"],
 [("node statistics", W+"_node.py compute_node_classifier_context / compute_node_regressor_context"), ("weights times bootstrap counts", W+"forest.py _parallel_build_trees")],
 [("y_pred", "node predictions", W+"_tree.py")],
 ["predict_proba / predict with aggregation=False", "get_nodes"])
prop("C03", "Every tree is a consistent recursive partition respecting the growth limits",
 "Every fitted tree is a binary tree in which the in-bag and the out-of-bag samples of a node are exactly partitioned between its two children, every input (seen or unseen, missing or unknown values included) reaches exactly one leaf, and apply() and the predictions follow the same path as growing did. The recorded depths and (weighted) sample counts of the nodes are the true ones (out-of-bag weights only when aggregation=True), no node is deeper than max_depth, every split node has at least min_samples_split and every child at least min_samples_leaf in-bag samples - and out-of-bag samples as well when aggregation=True.",
 ["inputs", "configurations"], "all small datasets with continuous and categorical features, all max_depth / min_samples_split / min_samples_leaf / aggregation settings, all query points of the bin grid",
 "Tests check max_depth or min_samples_leaf on one or two datasets; routing of unseen bins and agreement of the growing-time and prediction-time routing are never checked.",
 [W+"_grow.py", W+"_split.py", W+"_tree.py", W+"_node.py"],
 [("in-place partition of sample indices", W+"_split.py split_indices"), ("routing at prediction", W+"_tree.py find_leaf, "+W+"_split.py is_bin_in_partition"), ("stopping rules", W+"_grow.py grow")],
 [("partition_train/partition_valid", "sample indices laid out so that nodes are contiguous", W+"_tree_context.py")],
 ["apply", "get_nodes", "predict"])
prop("C04", "Every split is the best admissible one and nodes stop only when they must",
 "At every internal node the chosen split minimises the weighted impurity of the children (gini, entropy or variance of the in-bag samples) among all admissible splits of the features considered: thresholds between occupied bins for continuous features, and prefixes of the categories ordered by class proportion (binary: class 1, all: every class in turn, random: one class) or mean label for categorical ones - hence the best of all category subsets for binary classification and regression. A node is a leaf exactly when it is too small, too deep, pure (purity is tested below the root) or has no admissible split; a split leaving a child without weight is not admissible.",
 ["inputs", "configurations"], "all small datasets (continuous, categorical, mixed, missing), criteria, strategies, weights and growth limits with all features considered",
 "Sub-optimal splits still give valid trees and reasonable scores; the tests have no optimality oracle.",
 [W+"_split.py", W+"_impurity.py", W+"_grow.py"],
 [("histogram scan along a feature", W+"_split.py try_feature_order_for_classifier_split, find_best_split_regressor_along_feature"), ("impurities", W+"_impurity.py"), ("best over features", W+"_split.py find_node_split")],
 (), ["get_nodes", "apply"])
prop("C05", "Binning of continuous columns is monotone, bounded and row-wise",
 "For a continuous column the encoder maps values to bins 0..n_bins-1 with n_bins <= max_bins, monotonically (x <= x' implies bin(x) <= bin(x')), giving each distinct value its own bin when there are at most max_bins of them and bins of nearly equal population otherwise. The bin of a value depends only on that value and on the fitted data (not on the other rows, the container or the numeric dtype transformed), missing values get a bin of their own after all the others, and values never seen before - below, between or above the training values, or infinite - are binned by the same rule.",
 ["inputs", "configurations"], "all small columns over an alphabet with ties, extremes, infinities and missing values, all max_bins, dtypes, containers and query values",
 "Tests encode a handful of random columns; off-by-one bins at thresholds or at the missing bin need specific value patterns.",
 [W+"preprocessing/encoder.py", W+"preprocessing/_binning.py"],
 [("thresholds", W+"preprocessing/_binning.py _find_binning_thresholds"), ("binary search", W+"preprocessing/_binning.py _bin_continuous_column"), ("missing bin", W+"preprocessing/encoder.py Encoder.transform")],
 [("binning_thresholds_", "per-column thresholds", "Encoder")], ["Encoder.transform", "Encoder.inverse_transform"])
prop("C06", "Categorical encoding is a bijection; missing and unknown values are set apart",
 "For a categorical column the encoder maps the categories seen at fit one-to-one onto 0..n_categories-1, the same way in every later transform whatever rows, order, index or category dtype it receives; missing values and (with handle_unknown='consider_missing') unknown categories go to the bin n_categories, never to the bin of a known category. With handle_unknown='error' an unknown category raises ValueError, and inverse_transform(transform(X)) gives back the categories and the missing values of X.",
 ["inputs", "configurations"], "all small categorical columns (strings, ints, floats, booleans, pandas categories), all fit/transform pairs, with and without missing/unknown values",
 "Tests transform the data they were fitted on; a mapping that drifts between fit and transform, or an unknown category sharing a known bin, needs a different transform set.",
 [W+"preprocessing/encoder.py"],
 [("categories saved at fit and re-applied", W+"preprocessing/encoder.py Encoder.fit/transform"), ("inverse mapping", W+"preprocessing/encoder.py Encoder.inverse_transform")],
 [("categories_", "per-column categories", "Encoder")], ["Encoder.transform", "Encoder.inverse_transform", "ForestClassifier.predict"])
prop("C07", "Columns are typed as declared, and as documented when undeclared",
 "A numeric column declared categorical (boolean mask or indices, given to the constructor or to fit) is treated as categorical and one declared non-categorical as numerical; when nothing is declared a numeric column is categorical if and only if it has at most cat_min_categories distinct values ('log': max(2, floor(log n)), 'sqrt': max(2, floor(sqrt n)), or the given integer). Boolean, string, object and category columns of a dataframe are always categorical, unsupported types or inconsistent declarations raise ValueError, and the same declaration has the same effect however it is written.",
 ["inputs", "configurations"], "all combinations of container, dtype, number of distinct values, cat_min_categories and declaration form",
 "Tests cover part of the encoder's decision table, never the forest's: a declaration passed to the constructor was silently ignored.",
 [W+"preprocessing/_checks.py", W+"preprocessing/encoder.py", W+"forest.py"],
 [("decision tables", W+"preprocessing/_checks.py is_series_categorical, get_array_dtypes, get_is_categorical")],
 [("is_categorical_", "resolved typing", "Encoder, forest")], ["ForestClassifier.is_categorical_", "Encoder.is_categorical_"])
prop("C08", "The packed features matrix stores and returns every bin exactly",
 "Packing any matrix of non-negative integer bins into the bit-packed features matrix and reading it back - entry by entry, column by column or as a whole - returns exactly the same values, for any number of rows and columns, any maximum value per column and any unsigned input type. Columns do not influence each other and each value is stored on the minimal number of bits.",
 ["inputs"], "all small matrices, all bit widths 1..32, all row counts around every word boundary, all column combinations",
 "Tests use random matrices with a few maximum values; errors at particular bit widths, at word boundaries or in the last partial word escape them.",
 [W+"preprocessing/features_bitarray.py"],
 [("packing", W+"preprocessing/features_bitarray.py _features_bitarray_fill_column"), ("unpacking", W+"preprocessing/features_bitarray.py get_value_from_column")],
 [("bitarray", "packed words", "FeaturesBitArray")], ["array_to_bitarray", "features_bitarray_to_array", "Encoder.transform"])
prop("C09", "A seeded fit is identical for every number of jobs and thread schedule",
 "With a fixed integer random_state, fit produces the same forest - same in-bag samples, same trees, same predictions - for every n_jobs, every assignment of trees to threads, every completion order and every interleaving of the threads, in every repetition and whatever was computed before in the process or drawn from global random generators. Different trees of a forest (and of each class in one-versus-rest mode) use different bootstrap samples.",
 ["schedules", "histories"], "all assignments of 2-3 tree-building tasks to 1-3 threads and all interleavings of their Python steps up to a preemption bound, for classification, one-versus-rest and regression",
 "Tests run a couple of schedules the operating system happens to give and never compare n_jobs values on full forests.",
 [W+"forest.py", W+"tree.py", W+"_tree.py"],
 [("one seed per tree", W+"forest.py _generate_random_states"), ("per-tree seeding in the growing thread", W+"_tree.py _TreeClassifier, _TreeRegressor"), ("private copy of the weights", W+"forest.py _parallel_build_trees")],
 [("thread-local numba generator", "state of the random draws", "numba")], ["fit", "predict_proba", "get_nodes"])
prop("C10", "Parallel prediction counts every tree exactly once under every schedule",
 "predict, predict_proba, per-tree predictions and apply return, for every n_jobs and every interleaving of the worker threads, the same result as a sequential run: forest predictions are the mean over the trees (or the normalised per-class sums), with no tree lost, duplicated or attributed to another class or row. No schedule deadlocks.",
 ["schedules"], "all interleavings of 2-3 accumulation tasks on 2-3 threads up to a preemption bound, with non-atomic array updates",
 "A lost update needs a particular preemption between the read and the write of the shared accumulator; tests cannot force it.",
 [W+"forest.py"],
 [("lock around the shared accumulator", W+"forest.py _accumulate_prediction, _get_tree_prediction, _parallel_tree_apply, _compute_weighted_depth")],
 [("shared output array", "accumulator", W+"forest.py")], ["predict_proba", "predict", "apply", "predict_proba_trees", "predict_trees"])
prop("C11", "Changing step/dirichlet, pickling and lightening keep a forest consistent",
 "After any sequence of step and dirichlet changes, pickle or copy round trips, lightening and predictions, a fitted forest predicts exactly what a forest freshly fitted with its current parameters on the same data and seed predicts, and a refit equals a fresh fit. Pickling and lightening never change predictions or leaf assignments, an operation that is refused (such as dirichlet=0 with aggregation, or a dirichlet change after lightening) raises ValueError and leaves the forest as it was.",
 ["histories"], "all operation sequences up to a depth over {set step, set dirichlet, pickle, copy, lighten, predict, refit} for classification, one-versus-rest, regression, with and without aggregation",
 "Tests do one step or dirichlet change or one pickle round trip on a fresh forest, never their combinations.",
 [W+"tree.py", W+"forest.py", W+"_grow.py"],
 [("recomputation of losses and weights", W+"_grow.py recompute_node_predictions, compute_tree_weights"), ("serialization", W+"tree.py serialize/unserialize"), ("setters", W+"forest.py step, dirichlet; "+W+"tree.py step, dirichlet")],
 [("tree context", "training data kept to recompute predictions", W+"tree.py")], ["predict_proba", "predict", "apply"])
prop("C12", "Each tree splits the data into a bootstrap sample and its complement",
 "For every tree the in-bag and the out-of-bag samples are disjoint, non-empty and together are all the samples; the in-bag samples are n draws with replacement whose multiplicities sum to n and multiply the sample weights, while out-of-bag samples keep their weight. Every multiplicity pattern with a non-empty complement is possible, the draw depends only on the tree's seed, and fewer than two samples is refused with ValueError.",
 ["inputs"], "all sample sizes up to a bound and all seeds in a range; every reachable multiplicity pattern for small n",
 "Tests only check that two trees have different indices on one dataset; the empty-complement retry needs very small n.",
 [W+"forest.py"],
 [("bootstrap", W+"forest.py _generate_train_valid_samples"), ("multiplicities", W+"forest.py _parallel_build_trees")],
 (), ["get_nodes", "trees' in-bag and out-of-bag indices"])
prop("C13", "Forest predictions combine the trees as documented, for any label type",
 "predict_proba is the mean of the trees' class probabilities (with multiclass='ovr': the per-class scores normalised to sum to one, each class being scored by its own n_estimators trees trained on that class against the others), its rows are probability vectors whose columns follow the sorted classes_, and predict returns the class of highest probability in the labels' own values and type. For regression predict is the mean of the trees and stays within the range of the training labels; results for a row do not depend on the other rows queried.",
 ["inputs", "configurations"], "all small label assignments over label alphabets of every type, 2-4 classes, both multiclass modes, all query batches",
 "Tests run on fixed datasets with integer labels and mostly two classes; column order, label types and one-versus-rest attribution are not covered (and most classifier tests cannot run offline).",
 [W+"forest.py"],
 [("label encoding", W+"forest.py _encode_y"), ("combination", W+"forest.py predict_proba, predict")],
 [("classes_", "sorted labels", "forest")], ["predict_proba", "predict", "classes_"])
prop("C14", "Fitting is pure: inputs untouched, result a function of the arguments only",
 "fit, predict, predict_proba, apply and the encoder never modify the arrays or dataframes they are given, and accept read-only ones. The fitted model depends only on the data, weights and parameters: not on the history of earlier fits in the process or on the same object, the memory layout, the index or column names, nor on whether weights are omitted or all ones, or class_weight='balanced' is replaced by the equivalent sample weights.",
 ["histories", "inputs", "configurations"], "all sequences of up to three fits over a menu of configurations, all input containers and layouts, all small label vectors for the class weights",
 "Tests fit each model once in a fresh state; aliasing of the caller's arrays and state leaking between fits need particular dtypes and orders.",
 [W+"forest.py", W+"tree.py", W+"preprocessing/encoder.py"],
 [("copies of inputs", W+"forest.py fit, _parallel_build_trees"), ("class weights", W+"forest.py fit")],
 (), ["fit", "predict", "predict_proba"])
prop("C15", "Invalid parameters are rejected, accepted ones are kept and honoured",
 "Every parameter of the forests, and of the encoder, accepts exactly its documented domain: a value outside raises ValueError (AttributeError for the options frozen by fit), whether given to the constructor, by assignment or by set_params, and leaves the previous value in force (the options handed to the encoder and categorical_features are refused at the latest by fit); a value inside is returned unchanged by get_params, survives cloning and fitting, and is the one used by fit. Data of the wrong shape, type, length or number of features, non-finite labels or weights, and queries of an unfitted forest are refused with ValueError, never silently accepted.",
 ["inputs", "histories"], "all parameters times a menu of boundary values, times {constructor, setter, set_params} times {unfitted, fitted}",
 "Tests cover some setters on unfitted forests; refusal paths that forget to raise, or that half-apply a value, are not covered.",
 [W+"forest.py", W+"preprocessing/encoder.py", W+"preprocessing/_checks.py"],
 [("properties with checks", W+"forest.py"), ("check_X", W+"preprocessing/_checks.py")],
 (), ["__init__", "set_params", "get_params", "fit"])
prop("C16", "Each split considers max_features distinct features, uniformly drawn",
 "At each node the split is the best one over max_features distinct features drawn uniformly without replacement (all of them when max_features is the number of features), with max_features resolved as documented from None, 'auto', 'sqrt', 'log2', an integer or a fraction. Hence every subset of features can be drawn, none is drawn twice, and a node becomes a leaf for lack of a split only if no drawn feature has an admissible split.",
 ["inputs", "configurations"], "all outcomes of the random draws for up to 6 features, all max_features values, all seeds in a range on small datasets",
 "Uniformity and distinctness over all random outcomes cannot be sampled by a test; results remain plausible when a feature can never be drawn.",
 [W+"_utils.py", W+"_node.py", W+"forest.py"],
 [("draw without replacement", W+"_utils.py sample_without_replacement"), ("resolution", W+"forest.py _get_max_features_")],
 [("features_pool", "pool of features", W+"_node.py")], ["get_nodes", "max_features_"])
prop("C17", "Dataset.extract splits and encodes without losing or mixing rows",
 "Extracting a dataset returns a train and a test set that partition the rows of the loaded data (stratified by label for classification), keep every row's features aligned with its label, and never include the label among the features; the split depends only on random_state. Scaling is fitted on the training rows only, one-hot or ordinal encoding keeps distinct categories distinct, and the declared columns, categorical mask and class names describe the returned columns.",
 ["inputs", "configurations"], "all option combinations on a family of small generated datasets, for each task type",
 "Tests check shapes on bundled datasets; row misalignment, leakage and wrong masks keep the shapes.",
 [W+"datasets/dataset.py"],
 [("extraction", W+"datasets/dataset.py Dataset.extract")], (), ["Dataset.extract", "Dataset attributes"])
prop("C18", "An interrupted dataset download never leaves a corrupt cache behind",
 "If fetching a remote dataset is interrupted at any point - process killed or an error at any file-system operation - the next load either gets the complete dataset from the cache or fetches it again: it never fails for good on, or silently uses, a truncated or partial file. A completed fetch leaves exactly one complete cached file per dataset that later loads use without any download.",
 ["crash_points", "fault_sequences"], "every crash point (before, after and in the middle of every file-system step) of the fetch of every remote dataset loader, followed by a reload",
 "Tests download once without interruption (and cannot run offline).",
 [W+"datasets/_adult.py", W+"datasets/_car.py", W+"datasets/_kick.py", W+"datasets/_amazon.py", W+"datasets/_internet.py", W+"datasets/_default_cb.py", W+"datasets/_higgs.py", W+"datasets/_bank.py", W+"datasets/_epsilon.py", W+"datasets/_utils.py"],
 [("cache file presence test", "_fetch_* functions")], (), ["load_adult, load_car, ..."])
prop("C19", "Trees of any size and depth are stored faithfully",
 "Growing, storing, pickling and querying trees gives the same guarantees whatever their size: growing past any internal capacity (number of nodes, depth of the growing stack, number and size of the stored category subsets, number of bins or categories) loses, duplicates or corrupts nothing. In particular node statistics, routing and predictions of deep chains, of trees with thousands of nodes and of splits over hundreds of categories are exact.",
 ["inputs", "configurations"], "every tree size on both sides of each capacity doubling, every chain depth up to a bound in both directions, every number of categories up to a bound",
 "Tests fit data whose trees stay inside the initial capacities or only check scores.",
 [W+"_tree.py", W+"_grow.py", W+"_utils.py", W+"_split.py"],
 [("capacity growth", W+"_tree.py resize_tree, resize_tree_bin_partitions; "+W+"_grow.py push_record; "+W+"_utils.py resize")],
 [("capacity", "allocated nodes", W+"_tree.py")], ["get_nodes", "apply", "predict"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
