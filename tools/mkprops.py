#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
GB = "src/gradientbooster.rs"

p("C01", "Parallel and serial execution give bit-identical results",
  "For any data and parameters, fitting with parallel=true produces exactly the model that parallel=false produces, and predict, every predict_contributions method and value_partial_dependence return bit-identical numbers whether run in parallel or serially. This holds for every number of worker threads and every interleaving of the workers, including calls made from inside another rayon pool. predict_leaf_indices, which always runs in parallel, returns the same answer under every interleaving.",
  ["schedules", "inputs", "configurations"],
  "all thread schedules and pool sizes (1..16 workers, global or caller-supplied pool), all data shapes and parameter combinations",
  "The tests run each parallel call once or twice on whatever schedule the OS happens to produce on one small dataset; they never control who runs when, so a result that depends on completion order passes.",
  [GB, "src/histogram.rs", "src/tree.rs"],
  [("per-column histogram tasks collected in order", "src/histogram.rs HistogramMatrix::new"), ("per-row parallel predict/contributions into disjoint chunks", GB + " predict_contributions_*; src/tree.rs predict_parallel"), ("per-tree partial dependence reduction", GB + " value_partial_dependence")],
  observe=["GradientBooster::fit", "predict", "predict_contributions", "predict_leaf_indices", "value_partial_dependence"])

p("C02", "Training is reproducible: a function of data, parameters and seed only",
  "Two boosters with the same parameters and seed fitted on the same data are identical in every tree, weight, cover, base score, evaluation value and derived result (predictions, feature importances), no matter what else the process did before, which process or thread they run in, how its hash maps are keyed, what the clock says, or whether progress logging is on. Changing the seed is the only way to change what is sampled.",
  ["histories", "schedules", "configurations"],
  "all values of the process entropy, clock, thread count, logging setting, earlier work in the process; all parameter combinations including random, GOSS and column sampling",
  "A unit test compares two fits in one process with one set of hash keys, one clock and one schedule, at best; it cannot vary the ambient nondeterminism.",
  [GB, "src/sampler.rs", "src/tree.rs", "src/splitter.rs"],
  [("StdRng::seed_from_u64 per fit", GB + " fit_trees"), ("sorted column sample", GB + " fit_trees"), ("sorted summation of importances", GB + " calculate_feature_importance")],
  observe=["json_dump", "predict", "calculate_feature_importance"])

p("C03", "Concurrent callers never influence each other's results",
  "Any number of threads may use one fitted booster at the same time (predict, contributions, leaf indices, partial dependence, importance, dump, save to their own path) while other threads train or load boosters of their own, and every call returns exactly what it would have returned had it run alone. The shared booster is unchanged afterwards.",
  ["schedules", "histories"],
  "all interleavings of several caller threads sharing one booster and one worker pool, all mixes of operations",
  "The test suite is single-caller: no test has two threads inside the library at once.",
  [GB, "src/tree.rs", "src/histogram.rs"],
  [("read operations take &self and own their buffers", GB), ("no global or thread-local mutable state in the crate", "src/*")],
  observe=["all read APIs called from several simulated caller threads"])

p("C04", "A successfully saved model loads back as exactly the same model",
  "For any model whose parameters and weights are finite, if save_booster reports success, then loading that path, in this process or a later one, yields a booster with the same parameters, trees, base score, iteration bookkeeping, evaluation history and metadata, whose predictions and all other outputs are bit-identical, and which can itself be saved and loaded again without drift; json_dump/from_json likewise. However the operating system splits or interrupts the writes and reads, save and load still succeed, whatever file was at the path before.",
  ["fault_sequences", "inputs", "configurations", "histories"],
  "all fitted or unfitted models with finite parameters and weights (missing may be NaN and evaluation metrics NaN or infinite), all sequences of short reads/writes and EINTR, any previous file content, chains of save/load",
  "Tests save two or three models to a healthy file system and compare rounded predictions; they never see a short write, an interrupted call, an overwritten longer file, or the unusual values (NaN metrics, subnormal or huge weights, NaN missing).",
  [GB, "src/data.rs", "src/node.rs"],
  [("serde derive on GradientBooster/Tree/Node/RowMajorMatrix", GB + ", src/tree.rs, src/node.rs, src/data.rs"), ("serde_json float_roundtrip", "Cargo.toml"), ("fs::write loops until all bytes are written", GB + " save_booster"), ("null accepted for missing", GB + " parse_missing")],
  observe=["save_booster", "load_booster", "json_dump", "from_json"])

p("C05", "A save that could not complete is reported and does no other harm",
  "When the operating system refuses or fails any step of writing the file for good (open refused, I/O error, disk full after any number of bytes), save_booster returns the write error: it never reports success while the file lacks the complete model, never panics and never hangs. The booster in memory is untouched and keeps answering as before, files at other paths are never touched, a save refused before anything could be opened for writing leaves the file that was there as it was, and saving again once the fault is gone succeeds and is loadable.",
  ["fault_sequences", "crash_points"],
  "every system call of the save failing with any errno, every number of bytes after which the disk is full, combined with short writes and EINTR",
  "No test makes a write fail.",
  [GB, "src/errors.rs"],
  [("error of fs::write mapped to UnableToWrite", GB + " save_booster"), ("&self receiver", GB + " save_booster")],
  observe=["save_booster", "load_booster"])

p("C06", "After a crash during save, loading gives a complete model or an error",
  "If the process or machine dies at any instant of a save, a later load of that path returns either exactly the model being saved, or exactly the model that was there before, or an error; it never returns a model that is a mixture, a prefix or otherwise different from both, and it never panics. Files at other paths that had been saved successfully still load as the exact models they held when only the process died.",
  ["crash_points", "fault_sequences"],
  "every crash point between and inside the file operations of a save, every subset of un-synced sectors lost (zeroed or cut off) or torn, old file absent, shorter or longer",
  "No test interrupts a save.",
  [GB],
  [("one self-delimiting JSON document, all fields required to be complete", GB + " save_booster/load_booster"), ("whole file parsed before a booster is returned", GB + " load_booster")],
  observe=["save_booster (crashed)", "load_booster after restart"])

p("C07", "Loading is all-or-nothing under read faults and damaged files",
  "load_booster returns the exact saved model or an error, never a partial or altered one, when the file is missing, unreadable, truncated at any byte, has zeroed blocks or non-UTF-8 bytes, or when reads fail, come back short or are interrupted; it never panics or hangs. A failed load disturbs no booster already in memory, and the same load succeeds once the fault is gone.",
  ["fault_sequences", "inputs"],
  "all truncation points, zero-filled blocks, read errors at any call, short reads, EINTR, non-UTF-8 bytes",
  "Tests only load intact files.",
  [GB],
  [("read_to_string + serde_json parse of the whole document", GB + " load_booster"), ("errors mapped to UnableToRead", GB)],
  observe=["load_booster", "from_json"])

p("C08", "Refitting forgets the past: a refit equals a fresh fit",
  "Fitting a booster gives exactly the model that a brand new booster with the same parameters would get from the same data, whatever happened to it before: earlier fits on other data with or without evaluation sets and early stopping, changes of prediction iteration, rejected fits, fits interrupted by a panic at any iteration, saves, loads from disk. Nothing of an earlier fit (trees, evaluation history, best iteration, prediction iteration, base score that is to be re-estimated) survives.",
  ["histories", "fault_sequences", "schedules"],
  "all histories of fit, failed fit, interrupted fit, predict, set prediction iteration, save, load, ending in a fit",
  "The tests refit one model once on the same data; the history space (interruption at iteration k, early stopping then none, reload then refit) is unbounded.",
  [GB],
  [("reset() before training", GB + " fit_trees/reset"), ("rng reseeded from self.seed on every fit", GB + " fit_trees")],
  state=[("trees, evaluation_history, best_iteration, prediction_iteration, base_score", "what a fit leaves behind", GB)],
  observe=["fit", "json_dump", "predict"])

p("C09", "Rejected training and read-only calls leave the model untouched",
  "A fit that returns an error (missing values in y, negative or missing weights, bad evaluation targets or weights) leaves a previously fitted booster exactly as it was: same trees, predictions, base score, history and metadata. Predictions, contributions, importances, dumps and saves, successful or failed, never change the model.",
  ["histories", "inputs", "schedules"],
  "all positions and kinds of invalid values, in any of the training or evaluation inputs, at any point of a history",
  "Tests check that an error is raised for one or two invalid inputs, not that the model survives, nor for every position of the bad value.",
  [GB, "src/utils.rs"],
  [("all validation before any mutation", GB + " fit"), ("&self receivers", GB)],
  observe=["fit returning Err", "json_dump before/after"])

p("C10", "Each sampled training row counts once, in the leaf prediction routes it to",
  "For every tree, under every sampling method and draw, the rows drawn for the tree are distributed over its leaves exactly as predict_leaf_indices would route them (missing values included), each drawn row counted exactly once, and every node's cover is the sum of the hessians of its rows. Random sampling draws each row at most once, with probability subsample, and afresh for each tree; GOSS keeps every one of the top_rate share of rows with the largest gradients at their own weight and any other drawn row only with the (1-top_rate)/other_rate amplification.",
  ["inputs", "schedules", "configurations"],
  "all seeds/draws, sampling methods, missing patterns, missing-branch modes, grow policies, and worker schedules",
  "Tests compare aggregate predictions on one dataset; a row counted twice, lost in the partition, or routed differently in training and prediction changes the model by a sliver no fixture pins down.",
  ["src/tree.rs", "src/splitter.rs", "src/utils.rs", "src/sampler.rs", "src/histogram.rs", "src/binning.rs", "src/node.rs"],
  [("pivot of the row index around the split", "src/utils.rs pivot_on_split*"), ("subtraction trick", "src/histogram.rs from_parent_*"), ("same missing rule in binning and routing", "src/utils.rs is_missing/map_bin"), ("samplers", "src/sampler.rs")],
  observe=["trees[].nodes[].hessian_sum", "predict_leaf_indices"])

p("C11", "Evaluation history and early stopping match what was actually evaluated",
  "With evaluation sets, the history has one row per trained tree and one column per set, entry (i,j) being the chosen (or default) metric of the first i+1 trees on set j. With early stopping, best_iteration is the first iteration whose value on the last set no later trained one improved on, training stops exactly when early_stopping_rounds iterations have passed without improvement or the iterations are used up, and predictions use exactly the first best_iteration+1 trees; without it, all trees are trained and used.",
  ["histories", "configurations", "schedules"],
  "all metric sequences (improving, flat, oscillating, NaN), numbers of sets, stopping rounds, weights, metrics, and schedules of parallel evaluation",
  "Tests exercise one stopping pattern on one dataset; the order of improvement, ties, NaN values and multi-set combinations are unbounded.",
  [GB, "src/metric.rs", "src/data.rs"],
  [("best_metric/best_iteration state machine", GB + " fit_trees"), ("is_comparison_better", "src/metric.rs"), ("append_row", "src/data.rs")],
  state=[("evaluation_history, best_iteration, prediction_iteration", "record of training", GB)],
  observe=["evaluation_history", "best_iteration", "prediction_iteration", "predict"])

p("C12", "Every tree respects the configured structural limits for every draw",
  "Every trained tree is a well-formed tree in which: no node is deeper than max_depth, there are at most max_leaves leaves (one if max_leaves is 0), both non-missing children of a split have cover of at least min_leaf_weight, every split gains more than gamma, no weight exceeds max_delta_step times the learning rate when that is set, and at most floor(colsample_bytree * columns) different features are used, redrawn for each tree. With a missing branch, a node's weight lies between those of its two non-missing children when force_children_to_bound_parent is set (unless leaf averages replace the weights afterwards), and features listed to terminate (and all features when missing splits are disallowed) have a leaf as missing child; without one, and with missing splits disallowed, each side of every split has non-missing training rows.",
  ["inputs", "configurations", "schedules"],
  "all parameter combinations, seeds/draws, grow policies and datasets",
  "Tests assert one limit at a time on one dataset with one seed; limits interact (ternary splits with max_leaves, sampling with column subsets).",
  ["src/tree.rs", "src/splitter.rs", GB, "src/grower.rs"],
  [("max_leaves/max_depth accounting", "src/tree.rs fit"), ("new_leaves_added", "src/splitter.rs"), ("min_leaf_weight, gamma checks", "src/splitter.rs evaluate_split/best_feature_split"), ("column draw", GB + " fit_trees")],
  observe=["trees[].nodes[]"])

p("C13", "Monotone constraints hold for every input, draw, schedule and reload",
  "When a feature has a positive (negative) monotone constraint, then for any row and any two non-missing values of that feature, the prediction with the larger value is never smaller (never larger), all other features being equal. This holds for every sampling draw, missing-value handling, grow policy and prediction iteration, in parallel or serial training, and after saving and loading.",
  ["inputs", "configurations", "schedules"],
  "all rows and pairs of values, all combinations of constrained and unconstrained features, depths, draws and missing treatments",
  "The tests check partial dependence curves of constrained features on one dataset; the guarantee is about every row and pair of values and fails only when an unconstrained split sits below a constrained one with particular gradients.",
  ["src/splitter.rs", "src/utils.rs", "src/constraints.rs"],
  [("bounds propagated to children", "src/splitter.rs best_feature_split"), ("constrained_weight, cull_gain", "src/utils.rs")],
  observe=["predict on grids of values"])

p("C14", "All read views describe the same model at every point of a history",
  "At every point of any history, for any rows: the prediction is base_score plus the weights of the leaves that predict_leaf_indices names, using exactly the trees up to the prediction iteration; every contribution method (Weight, Average, ProbabilityChange, Branch-, Midpoint- and ModeDifference, Shapley) gives each feature exactly what its definition gives on those trees, the Shapley values being the exact path-dependent ones, and where the method is additive contributions plus bias sum to the prediction (ProbabilityChange: to its probability); partial dependence is the cover-weighted average of the trees at that value; importances add up over exactly the splits of the trees; a tree printed as text lists every node once with its own values. A row's results do not depend on which other rows are in the call.",
  ["histories", "inputs", "schedules"],
  "all models reachable by fit, early stopping, set prediction iteration, save, load; all rows including missing values; all batch compositions and schedules",
  "Tests compare a few views on one model with one batch; agreement after truncating, reloading, batching or under another schedule is not sampled.",
  [GB, "src/tree.rs", "src/shapley.rs", "src/partial_dependence.rs", "src/node.rs"],
  [("get_prediction_trees", GB), ("get_child_idx", "src/node.rs"), ("contribution recursions", "src/tree.rs, src/shapley.rs")],
  observe=["predict", "predict_leaf_indices", "predict_contributions", "value_partial_dependence", "calculate_feature_importance"])

p("C15", "Failures inside workers surface to the caller and never wedge the library",
  "A parallel call raises a panic if and only if the same call made serially does, the panic reaches the caller instead of being swallowed or aborting the process, and afterwards the worker pool, the booster and every other booster keep working with correct results. Every call returns within a bounded number of steps for any pool size (one worker included), with stalled workers and spurious wake-ups, and when made from inside a worker of the same pool.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings, stalls, spurious wake-ups, pool sizes, nesting, all positions of the offending value (NaN in data when missing is another value) and failing log sinks at any iteration",
  "Tests never panic inside a parallel region, and cannot explore stalls or wake-up orders.",
  [GB, "src/tree.rs", "src/histogram.rs", "src/utils.rs"],
  [("rayon panic propagation; no locks held by the crate across tasks", GB), ("is_missing panics on unexpected NaN", "src/utils.rs")],
  observe=["fit, predict, predict_contributions, predict_leaf_indices under faults"])

p("C16", "Python: a persisted booster is indistinguishable from the original",
  "A fitted Python GradientBooster that went through save_booster/load_booster or pickle, in the same or another process, gives bit-identical predictions, contributions, leaf indices, importances, evaluation history, best and prediction iteration, feature names, number of features, metadata and parameters (as the library stores them), accepts and rejects the same frames, and refits to the same model as the original would. This includes models fit on DataFrames (string or integer column names) with constraints or terminated features on only some columns.",
  ["histories", "configurations", "fault_sequences"],
  "all histories of fit (array or DataFrame), save, load, pickle, set_params, metadata, restart, refit; all parameter combinations; short reads/writes and EINTR underneath",
  "Tests cover a single save/load and pickle per fixture, with constraints given for every column or none; combinations with refits, restarts and I/O interruptions are not sampled.",
  ["py-forust/forust/__init__.py", "py-forust/forust/serialize.py", "py-forust/src/lib.rs", GB],
  [("meta_data_attributes restored on load", "py-forust/forust/__init__.py load_booster"), ("__getstate__/__setstate__", "py-forust/forust/__init__.py"), ("get_params", "py-forust/src/lib.rs")],
  observe=["python GradientBooster public API"])

p("C17", "Python: failures surface as exceptions and leave the booster usable",
  "In Python, a failing save or load (any I/O error, full disk, truncated file) and a rejected fit raise an exception and never kill the interpreter; the booster keeps its previous predictions, metadata and saved representation, and a later fit, save or load works as if the failure had not happened. A booster that is refit, on a frame or an array, gives the same model, importances and feature names as a new booster with the same parameters.",
  ["histories", "fault_sequences"],
  "all histories mixing successful and failing fit, save, load, predict at any fault point",
  "Tests check that some invalid inputs raise, not what the booster is worth afterwards, and never inject I/O faults.",
  ["py-forust/forust/__init__.py", "py-forust/src/lib.rs", GB],
  [("Err mapped to ValueError", "py-forust/src/lib.rs"), ("pyo3 panic to exception", "py-forust/src/lib.rs")],
  observe=["python GradientBooster public API"])

p("C18", "Every tree is fit to the residuals of exactly the model built so far",
  "The k-th tree's leaf weights are the regularised Newton step (learning_rate, l1, l2, max_delta_step) of the gradients and hessians evaluated at the predictions of the first k-1 trees plus base score, over exactly the rows drawn for that tree that fall in the leaf, limited to the bounds its monotone constraints impose and, for missing-branch nodes, following the configured missing_node_treatment; evaluated on the training rows the ensemble therefore reproduces what training saw. base_score is the weighted mean (squared loss) or log odds (log loss) of the training target when it is to be initialised and the configured value otherwise.",
  ["histories", "schedules", "inputs", "configurations"],
  "all iterations of all trainings: datasets, weights, draws, missing handling, and worker schedules",
  "Fixtures compare rounded predictions with another library on one dataset; a stale gradient, an update skipped for some rows, or sampled amplification leaking into the next iteration shows only for particular draws and iterations.",
  [GB, "src/objective.rs", "src/tree.rs", "src/splitter.rs", "src/sampler.rs"],
  [("update_predictions_inplace and gradient recomputation each iteration", GB + " fit_trees"), ("weight()", "src/utils.rs")],
  observe=["trees[].nodes[].weight_value", "base_score", "predict"])

p("C19", "Python: every view describes one model, for every layout and history",
  "In Python, at every point of a history of fits, rejected fits, saves, failed saves, loads, pickling and set_prediction_iteration: predictions, leaf indices, every contribution method, feature importances, node lists, trees_to_dataframe, text_dump, partial dependence, evaluation history, iteration counts, feature names and counts all describe the trees that json_dump shows, for rows passed as C-ordered, Fortran-ordered, sliced or reversed arrays, any numeric dtype, DataFrames with default or other index, and whole or split batches. Training gives the same model whichever of these layouts and containers X, y, sample_weight and evaluation sets come in, and no call changes the arrays and frames it is given.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of the Python API including rejected and failed calls; all array orders, strides, dtypes and containers of the same values",
  "Tests compare a view or two right after one fit, with one array layout; disagreement that only appears after a particular history or for a particular layout is not sampled.",
  ["py-forust/forust/__init__.py", "py-forust/src/lib.rs"],
  [("column-major flattening of every input", "py-forust/forust/__init__.py _convert_input_frame, _convert_input_array"), ("per-call copies into Matrix", "py-forust/src/lib.rs"), ("importances, partial dependence and node frames built from the booster", "py-forust/forust/__init__.py")],
  observe=["python GradientBooster public API"])

p("C20", "Python: threads sharing a booster get the results they would get alone",
  "When several Python threads use one fitted booster at once (predict, leaf indices, contributions, importances, partial dependence, dumps, metadata and parameter reads, pickling, saving to their own path), and train, load or save boosters of their own, each call returns or raises exactly what it would have done alone, for every interleaving of the interpreter's threads. Afterwards the shared booster is unchanged.",
  ["schedules", "histories"],
  "all interleavings, at the granularity of Python lines and byte codes, of 2 to 4 threads; all mixes of operations",
  "The Python tests are single-threaded.",
  ["py-forust/forust/__init__.py", "py-forust/src/lib.rs"],
  [("read methods do not write to self", "py-forust/forust/__init__.py"), ("&self receivers and pyo3 borrow checks", "py-forust/src/lib.rs")],
  observe=["python GradientBooster public API from several threads"])

p("C21", "Every split is the best one the data and the constraints allow",
  "For the rows drawn for a tree and the gradients of the model so far, each node is split where the regularised gain is largest among all candidate cuts of the features available to that tree (missing rows going to the better side, or to a branch of their own), subject to min_leaf_weight, monotone constraints and bounds; the recorded split_gain is that gain; the candidate cuts of a column are all its values when it has at most nbins distinct ones and its nbins weighted percentiles otherwise; a node is left unsplit only when no split gains more than gamma or a limit (max_depth, max_leaves) stops it; and nodes are expanded in depth order (DepthWise) or by largest gain (LossGuide). This holds at every iteration, for every draw and every schedule.",
  ["histories", "schedules", "inputs", "configurations"],
  "all nodes of all trees of all trainings: data, weights, draws, missing handling, constraints, worker schedules (the parallel search reduces over features in any order)",
  "Fixtures compare rounded predictions on one dataset; a candidate skipped by a worker, a histogram slot lost in the subtraction of one child, or a comparison wrong in one missing-value mode changes only some nodes.",
  ["src/splitter.rs", "src/histogram.rs", "src/tree.rs", "src/grower.rs", "src/binning.rs"],
  [("best_split over features", "src/splitter.rs best_split"), ("histogram construction and subtraction", "src/histogram.rs"), ("growth order", "src/grower.rs, src/tree.rs fit")],
  observe=["trees[].nodes[] split_feature, split_value, split_gain, missing_node"])

p("C22", "Model files of earlier releases load as the models they were",
  "A model file written before a parameter or bookkeeping entry existed (l1, max_delta_step, top_rate, other_rate, colsample_bytree, sample_method, grow_policy, evaluation_metric, early_stopping_rounds, initialize_base_score, terminate_missing_features, evaluation_history, best_iteration, prediction_iteration, missing_node_treatment, log_iterations, force_children_to_bound_parent), so without that entry, still loads, whichever of these entries it lacks: every tree, prediction and output is that of the model that was saved, the absent entry takes the value under which the earlier release behaved, refitting trains what that release would have trained, and saving it again gives a complete file that loads as the same model.",
  ["configurations", "histories", "fault_sequences"],
  "all subsets of the entries that have a default in the file format, all models trained without using them, short reads/writes and EINTR, chains of load and save across processes",
  "No test loads a file with an entry missing; every stored fixture is written by the version under test.",
  [GB],
  [("serde default functions", GB + " default_* functions and #[serde(default)]"), ("load_booster, from_json", GB)],
  observe=["load_booster on a file without the entries", "fit after loading"])

p("C23", "Python: boosters persisted by earlier releases are restored as they were",
  "In Python, a pickle or a saved model file made before a parameter existed, so without that entry in the model document and without that attribute in the pickled state, is restored in a later process as a booster with the same predictions, dumps, importances, metadata and history, whose parameters (get_params) give the absent one the value the earlier release behaved with, and which can be refit, saved and pickled again with the results the original would give.",
  ["configurations", "histories", "fault_sequences"],
  "all subsets of the parameters that have a default in the file format, boosters reached by any history, model file or pickle, short reads/writes and EINTR, chains over processes",
  "The tests pickle and unpickle with one version; the branch of __setstate__ that adds parameters is never entered.",
  ["py-forust/forust/__init__.py", "py-forust/src/lib.rs", GB],
  [("__setstate__ adds parameters the pickled state lacks", "py-forust/forust/__init__.py __setstate__"), ("load_booster rebuilds the parameters from the booster", "py-forust/forust/__init__.py load_booster; py-forust/src/lib.rs get_params")],
  observe=["pickle.load", "load_booster", "get_params", "fit after restoring"])

NA = "pure function of its arguments: no schedule, clock, fault, randomness or history in it, so there is nothing for a simulator to decide"
p("C30", "Metric and objective formulas",
  "Log loss, AUC, RMSE, RMSLE, gradients, hessians and initial scores equal their textbook definitions for all inputs.",
  ["inputs"], "all targets, predictions and weights", "finite fixtures only",
  ["src/metric.rs", "src/objective.rs"], [("formulas", "src/metric.rs, src/objective.rs")])
p("C33", "Parameter validation and option parsing",
  "Out-of-range parameters and unknown option names are rejected with the documented error.",
  ["inputs"], "all parameter values and strings", "finite fixtures only",
  [GB, "src/utils.rs", "src/metric.rs"], [("validate_*", "src/utils.rs")])
p("C34", "Models converted from XGBoost predict like the original",
  "A model converted from an XGBoost booster predicts what XGBoost predicts.",
  ["inputs", "configurations"], "all XGBoost models", "finite fixtures only",
  ["py-forust/forust/__init__.py"], [("_from_xgboost_model", "py-forust/forust/__init__.py")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
