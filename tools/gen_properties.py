#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Prediction routes every training row to the leaf it was trained in",
  "Every training row, sampled or left out of the sample, is scored by a trained tree with the value of exactly the leaf whose value was fitted on it (or that its own feature values lead to, if it was left out), and the leaves of a tree partition the sampled rows. "
  "After any number of boosting iterations the scores the trainer keeps for its rows equal the ensemble's predictions for these rows bit for bit, whatever the feature types, values, sampling and compression settings.",
  ["inputs", "configurations", "histories"],
  "all data sets with finite numerical and non-negative integer categorical features x all valid configurations x all numbers of iterations",
  "Training routes rows through pre-computed bit vectors over 512 value bins and compressed 32-row blocks, prediction compares raw values; agreement is needed for every value, in particular values that lie on or next to a bin edge. No existing test compares the two; the 48 unit tests check a few fixed bit patterns.",
  ["src/dataset.rs", "src/tree/learner.rs", "src/tree/tree.rs", "src/boost.rs"],
  [("bit vector per split candidate from bins", "src/dataset.rs InnerDataset::update_num/update_hicard_cat/update_locard_cat"),
   ("leaf value prediction from masks", "src/tree/learner.rs predict_leaf_value/predict_child_leaf_values, extend_examples!"),
   ("tree walk", "src/tree/tree.rs Tree::predict_leaf_id_of_example"),
   ("out of bag update", "src/tree/learner.rs predict_out_of_bag_examples")],
  ["Tree::predict / AdditiveTree::predict on the training Data", "Objective::predictions and the calls to Objective::predict_leaf_value / update_out_of_bag_prediction made through a public-trait objective"])

p("P02", "Each split is the best admissible candidate; trees stop exactly when they must",
  "At every node the learner takes a split whose gain, computed from the discretised gradient sums of the node's rows as parent loss minus the losses of both sides with loss -g^2/(2(n+lambda)), is at least that of every other candidate of the active features that leaves min_examples_leaf rows on either side. "
  "A node is split if and only if its depth is below max_tree_depth and such a candidate has a gain above min_gain. The sums of each node are those of its own rows, however often it was derived by subtraction or compressed.",
  ["inputs", "configurations"],
  "all data sets, gradients, discretisation widths, lambda, min_gain, min_examples_leaf and max_tree_depth",
  "Histograms are built by SIMD kernels for one child and by subtraction for the other, so an error shows only for particular block counts, depths and sibling patterns; tests never look at which split was taken.",
  ["src/tree/learner.rs", "src/slice_store.rs", "src/simd.rs"],
  [("exhaustive candidate loop", "src/tree/learner.rs find_best_split/get_loss"),
   ("histogram construction", "src/tree/learner.rs build_histograms!/get_grad_sum!"),
   ("sibling by subtraction", "src/slice_store.rs HistStore::hists_subtract")],
  ["leaf row sets passed to a public-trait objective", "Tree::node_value/left_child/right_child"],
  [("Node2Split", "rows, gradient sum and histograms of a pending node", "src/tree/learner.rs")])

p("P03", "The compression threshold never changes the model",
  "Training with any compression_threshold yields the same tree, the same leaf row sets and bit-identical leaf values and predictions as training without compression, for every data set, number of rows, discretisation width and depth, including nodes compressed several times over.",
  ["inputs", "configurations"],
  "all data sets x all thresholds x all sequences of compressions along a root-to-leaf path",
  "Compression only starts above 256 rows and depends on which 32-row blocks become empty along a path; tests train no tree with compression.",
  ["src/tree/learner.rs", "src/slice_store.rs", "src/simd.rs"],
  [("block compaction of masks, indices and gradients", "src/tree/learner.rs split_examples/compress_examples!"),
   ("compressed kernels", "src/simd.rs *_c"), ("compressed index iteration", "src/slice_store.rs index_iter_*_compr")],
  ["leaf row sets and values seen by the objective", "Tree::predict"])

p("P04", "Bit-parallel counts and masked sums equal their scalar definition",
  "For all bit vectors, masks, index vectors and 1/2/4/8-bit value vectors of any number of blocks, every masked count and masked sum, plain or through a block index, equals the number obtained by looking at each bit or value on its own. This holds for both the pooled and the owned containers and also for the element-wise OR.",
  ["inputs"],
  "all contents of vectors of any length, and all index maps into the mask",
  "The carry-save adder tree handles 16 blocks per round plus a remainder; tests try a handful of random vectors. Every position, lane, carry state and remainder length must be right.",
  ["src/simd.rs", "src/count_and_sum.rs", "src/slice_store.rs", "src/bitslice.rs"],
  [("Harley-Seal carry-save adders", "src/simd.rs harvey_seal_aux!, src/count_and_sum.rs harley_seal"),
   ("masked loads per width", "src/simd.rs load_mask_and_u32_*; src/count_and_sum.rs loadfn!")],
  ["BitVec::count_ones_and(_compr)", "BitSlice::sum_masked/sum_scaled_masked/sum_all_masked2(_compr)", "count_and2_*/sum_and3_*", "simd::or_assign"])

p("P05", "Bit containers behave like plain arrays of bits and values",
  "After any sequence of operations, a bit block, bit vector, bit set or packed value vector reads back exactly what was last written at each position and nothing else changed; bits beyond the requested length of a freshly made all-ones vector are zero. Construction from iterators consumes exactly the items it stores and views as 8/16/32/64-bit integers are consistent with the bit order; copying a block of packed values transfers its 32 values and no others.",
  ["histories", "inputs"],
  "all lengths, positions and operation sequences",
  "Word, block and super-block index arithmetic differs per width and is only tested at a few positions.",
  ["src/bitblock.rs", "src/bitset.rs", "src/slice_store.rs", "src/bitslice.rs"],
  [("position arithmetic", "src/bitblock.rs get_blockpos/get_bitpos; src/slice_store.rs BitSlice::get_indices/bitslice_blockpos_u32"),
   ("clearing of surplus bits", "src/bitblock.rs BitBlocks::one_bits; src/slice_store.rs BitBlockStore::alloc_one_bits")],
  ["get_bit/set_bit/enable_bit/disable_bit", "get_value/set_value/copy_block_from", "cast/get/set"])

p("P06", "Index iteration lists exactly the set positions in ascending order",
  "Iterating over a bit vector, over its conjunction with a mask or with the complement of a mask, plain or through a block index, yields exactly the (mapped) positions whose bits satisfy the condition, each once and, block by block, in ascending order. Visitors that ask to stop see no further position.",
  ["inputs"],
  "all contents and lengths of vectors, masks and index maps",
  "Leaf values are computed from these lists; existing tests sample a few random vectors.",
  ["src/slice_store.rs"],
  [("word scanning", "src/slice_store.rs IndexIter, BitVec::for_each_index*")],
  ["BitVec::index_iter*", "BitVec::for_each_index*"])

p("P07", "Pooled storage never overlaps, loses or leaks contents of live slices",
  "After any history of allocations, writes, frees, growth and resets, live slices are disjoint, aligned, have at least the requested length, start with the requested initial contents and keep what was written to them until they are freed. Two slices borrowed together are the two that were asked for, and the histogram difference of two slices is written to the third and nowhere else.",
  ["histories"],
  "all sequences of alloc (all kinds and sizes), write, free, shrink, subtract and reset",
  "Tests run one short fixed sequence; reuse after free, partial reuse and reallocation depend on the history.",
  ["src/slice_store.rs"],
  [("first-fit free list with full extents", "src/slice_store.rs SliceStore::alloc_slice/free_slice"),
   ("growth", "src/slice_store.rs SliceStore::resize/realloc"),
   ("histogram layout", "src/slice_store.rs HistStore")],
  ["SliceStore, HistStore and BitBlockStore public methods"],
  [("free, slice_ends", "reusable slices and their full extent", "src/slice_store.rs SliceStore")])

p("P08", "Gradients are discretised to the nearest level and sums are projected exactly",
  "Storing a value with b bits and bounds (lo, hi) keeps the level nearest to the value clamped to the bounds, reading it back gives that level's real value, and levels 0 and 2^b-1 stand for lo and hi. The projection of a sum of c levels equals the sum of the c real level values up to rounding, and storing is monotone in the value.",
  ["inputs"],
  "all values, bounds with lo < hi, and widths 1, 2, 4, 8",
  "Round-off at level boundaries and at the clamped ends exists for every width; tests use one set of bounds.",
  ["src/slice_store.rs", "src/bitslice.rs"],
  [("scaling and rounding", "src/slice_store.rs BitSlice::set_scaled_value"), ("linear projection", "src/slice_store.rs BitSliceLayout::linproj; src/bitslice.rs")],
  ["set_scaled_value/get_scaled_value/sum_scaled_masked/linproj"])

p("P09", "Binning is monotone and rank queries return the bin that holds the rank",
  "Values are assigned to equal-width bins monotonically, values outside the limits go to the first or last bin, and each value lies within one bin width of the representative of its bin. A rank query returns the first bin whose cumulative weight exceeds the rank (the last bin scanned if none does), for single ranks and for ascending sequences of ranks alike.",
  ["inputs", "histories"],
  "all limits, numbers of bins, inserted multisets and ascending rank sequences",
  "All quantile, median and split threshold estimates rest on it; one test covers one set of 4 bins.",
  ["src/binner.rs"],
  [("bin index", "src/binner.rs Binner::get_bin"), ("cumulative scan", "src/binner.rs RankIter::next")],
  ["Binner::insert/get_bin/bin_representative/bin_with_rank/rank_iter"])

p("P10", "Each loss starts from its own optimum and gives the gradients it documents",
  "For every target vector and current score vector, gradients equal the derivative of the loss with respect to the score (l2: score-target; l1: sign; huber: clipped at the alpha-quantile of the residuals; binary: logistic on +-1 labels; hinge: +-1 inside the margin, else 0), so they always point from the target to the score. "
  "The start value is the mean, the binned median, the prior log-odds or the class balance respectively and is finite, also for constant or single-class targets, and the reported bounds are ordered, finite and those documented for the loss.",
  ["inputs", "histories", "configurations"],
  "all finite target vectors and all score vectors reachable by training, all five losses",
  "No test touches the losses; signs, clipping and degenerate targets matter for every input.",
  ["src/objective.rs"],
  [("initialize/update per loss", "src/objective.rs impl Objective for L2/L1/Huber/Binary/Hinge"), ("binned median", "src/objective.rs quantile!")],
  ["Objective::bias/gradients/bounds/predictions"])

p("P11", "A leaf value optimises its loss and is booked on exactly the rows of the leaf",
  "Fitting a leaf returns learning_rate times the loss's own leaf estimate for the rows of the leaf (mean residual; binned median residual; huber one-step; newton-like step for binary; mean squared margin violation for hinge), adds exactly the returned value to the scores of these rows and leaves all other scores untouched. An out-of-sample update adds the given value to that single row.",
  ["inputs", "histories"],
  "all target, score and row-set combinations and all interleavings of leaf fits and out-of-sample updates",
  "No test touches leaf fitting.",
  ["src/objective.rs"],
  [("predict_leaf_value/update_predictions", "src/objective.rs"), ("update_out_of_bag_prediction", "src/objective.rs impl_simple_obj_methods!")],
  ["Objective::predict_leaf_value", "Objective::predictions"])

p("P12", "Metrics equal their textbook definition and names resolve to the right one",
  "l2, rmse, binary loss and both binary errors return the mean of the per-row definition for every target and score vector of equal length, and do not depend on row order beyond rounding. Every documented objective and metric name, in any letter case, resolves to its implementation, and every other name is rejected.",
  ["inputs"],
  "all target and score vectors, all names",
  "No test evaluates a metric.",
  ["src/metric.rs", "src/objective.rs"],
  [("per-row loss", "src/metric.rs impl_metric!"), ("name lookup", "src/metric.rs metric_from_name/metrics_from_names; src/objective.rs objective_from_name")],
  ["Metric::eval", "metric_from_name", "metrics_from_names", "metric_for_objective", "objective_from_name"])

p("P13", "CSV loading keeps every record or fails with an error",
  "Loading a CSV text either returns a data set that holds every record and column in order with the exact parsed values, the true minimum and maximum, cardinality, type and name of every column (last column is the target), or returns an error; it never panics. Non-numeric cells, records of different length, negative, fractional or non-finite categorical values and texts without records are errors; delimiter, header and categorical settings are honoured.",
  ["inputs", "configurations"],
  "all texts over the CSV alphabet and all delimiter, header and categorical settings",
  "Two tests load well-formed two-line texts; all malformed and boundary texts are untested.",
  ["src/data.rs"],
  [("record loop", "src/data.rs Data::from_csv"), ("categorical validation", "src/data.rs check_categorical_value")],
  ["Data::from_csv/from_csv_reader/from_csv_path and the accessors of Data"])

p("P14", "Column-wise loading equals CSV loading; the last write of a column wins",
  "A data set filled column by column, in any order and with any number of overwrites, is indistinguishable by its accessors and by the models trained on it from the data set loaded from a CSV text holding the final contents. Nothing of an overwritten column survives.",
  ["histories", "inputs"],
  "all sequences of column writes, numerical or categorical",
  "The in-memory path is used only by the bindings and is untested.",
  ["src/data.rs"],
  [("set_feature_data/empty", "src/data.rs")],
  ["Data accessors", "AdditiveTree::predict of models trained on both"])

p("P15", "Configuration records set exactly the named field or are rejected",
  "Parsing name=value records sets exactly the named fields to exactly the given values (surrounding blanks ignored, values may contain '=', lists are comma separated, later records win) and leaves all others at their documented default. Unknown names, missing '=' and values that do not parse as the field's type are errors, and the generated parameter table shipped with the Python package lists the same names, defaults and types as the library.",
  ["inputs", "histories"],
  "all fields, all sequences of records and all value texts",
  "One test parses three records of a toy configuration.",
  ["src/config.rs", "python/bitboost_config.gen.csv", "src/bin/bitboost_gen_config_csv.rs"],
  [("record parser", "src/config.rs parse_config!"), ("documentation table", "src/config.rs write_doc_csv")],
  ["Config::new/parse/parse_record/write_doc_csv"])

p("P16", "Row and feature samples are fair, well-formed and refreshed on schedule",
  "With example_fraction below 1 each refresh draws round(fraction*n), at least one, distinct rows, every subset of that size being equally likely; the rest are exactly the left-out rows, both in ascending order, and the same holds for features, of which round(feature_fraction*useful) of the useful ones (more than one value) are drawn. "
  "Samples change only at the first iteration and at iteration numbers divisible by sample_freq, and without sampling all rows and useful features are used.",
  ["inputs", "configurations", "histories"],
  "all n, fractions, frequencies, seeds and all outcomes of the random generator",
  "Tests fix one seed; fairness and well-formedness are statements over all random outcomes and update histories.",
  ["src/dataset.rs"],
  [("partial Fisher-Yates", "src/dataset.rs shuffle_first_k"), ("refresh schedule", "src/dataset.rs Dataset::update"), ("complement", "src/dataset.rs InactiveExampleIter")],
  ["Dataset::active_features/active_examples_iter/map_index/inactive_examples_iter/nactive_*"],
  [("index_buffer, useful_features", "permutation whose prefix is the sample", "src/dataset.rs Dataset")])

p("P17", "Split candidates are faithful to the data and follow the gradients",
  "After a refresh the row set of every candidate of every active feature is exactly the set of sampled rows that satisfy the candidate's test (category equals, category group up to, value below threshold), and candidate sets of one ordered feature are nested. "
  "Numerical thresholds are ascending, at most max_nbins, and within one of 512 bin widths of the gradient-weighted quantiles; categories of high-cardinality features are ordered by the mean gradient of their sampled rows, up to one bin, before being grouped by quantile.",
  ["inputs", "configurations", "histories"],
  "all data sets, gradients, bounds, bin limits, samples and refresh histories",
  "Tests compare a few fixed bit patterns without sampling; values on bin edges, empty bins, unseen categories and repeated refreshes are untested.",
  ["src/dataset.rs", "src/binner.rs"],
  [("update_num", "src/dataset.rs"), ("update_hicard_cat", "src/dataset.rs"), ("update_locard_cat", "src/dataset.rs"), ("binary optimisation", "src/data.rs Data::max_nbins")],
  ["Dataset::get_nbins/get_bitvec/get_split_value/get_supercats"])

p("P18", "The trained model does not depend on thread scheduling",
  "Whatever the number of worker threads and the order in which they run, and whether or not another training runs at the same time, training terminates and produces the same model and scores bit for bit.",
  ["schedules"],
  "all interleavings of the parallel histogram tasks and all thread counts",
  "Tests run one uncontrolled schedule; results are combined under a lock in scheduling order.",
  ["src/tree/learner.rs"],
  [("parallel histogram build with a shared, locked store", "src/tree/learner.rs build_histograms!")],
  ["leaf row sets, values and predictions"],
  [("hist_store", "histograms shared by all tasks", "src/tree/learner.rs TreeLearnerContext")])

p("P19", "The C interface is a faithful, panic-proof state machine",
  "For every sequence of C calls on any number of contexts, each call returns 0 exactly when it is legal in the current state (field setting only before data, features within range, training and prediction only with data and model), else -1 or a null pointer; no call aborts the process, and a rejected call leaves earlier configuration, data and model usable. Predictions returned equal those of the native library for the same configuration and data, and contexts do not influence each other, whichever thread makes a call.",
  ["histories", "inputs"],
  "all call sequences and argument classes over several contexts",
  "The C interface is untested; legality depends on the history of calls.",
  ["src/c_api.rs"],
  [("unwind guard", "src/c_api.rs wrap_catch_unwind!"), ("state checks", "src/c_api.rs bb_*")],
  ["return codes and output buffers of bb_*"],
  [("Context", "config, data, model of one handle", "src/c_api.rs")])

p("P20", "Tree and ensemble evaluation follow their definition",
  "For every tree built through the public interface a row is routed left exactly when its value equals the category, its category group is at most the split group (unknown categories go right), or its value is below the threshold, and its score is shrinkage*(leaf value + bias). An ensemble scores its bias plus the sum of its trees' scores in order; node numbering, node and leaf counts and the depth limit are consistent, and illegal splits and non-finite leaf values are rejected.",
  ["histories", "inputs"],
  "all sequences of splits, values, bias and shrinkage settings and all rows",
  "One test checks three size formulas.",
  ["src/tree/tree.rs"],
  [("walk", "src/tree/tree.rs predict_leaf_id_of_example"), ("accumulation", "src/tree/tree.rs AdditiveTree::predict_buf")],
  ["Tree and AdditiveTree public methods"])

p("P21", "Boosting only adds trees and never worsens the squared training loss",
  "Training k+m iterations yields the same first k trees as training k iterations, for every loss. With the squared loss, no row sampling and learning rate in (0,1], the training loss after each iteration is, up to rounding, no larger than before it.",
  ["inputs", "configurations", "histories"],
  "all data sets, numbers of iterations and learning rates",
  "No test boosts.",
  ["src/boost.rs", "src/objective.rs", "src/tree/learner.rs"],
  [("iteration", "src/boost.rs train_one_iter"), ("state reuse", "src/tree/learner.rs TreeLearnerContext::reset")],
  ["AdditiveTree::predict", "Objective::predictions"])

p("P22", "Training on valid input never aborts and always predicts finite numbers",
  "For every data set of finite moderate numbers and valid categories with at least one row, and every valid configuration, training terminates without a panic and every prediction is finite; this includes constant columns and targets, a single row, more bins than rows, features without a usable split, tiny samples and single-class labels. (The hinge loss with a learning rate above 0.25, which diverges, is a recorded finding.)",
  ["inputs", "configurations"],
  "all small data sets x configuration lattice, all losses",
  "Degenerate inputs hit assertions and arithmetic that ordinary tests never reach.",
  ["src/boost.rs", "src/dataset.rs", "src/objective.rs", "src/binner.rs", "src/tree/learner.rs", "src/slice_store.rs"],
  [("degenerate-case handling", "src/dataset.rs, src/binner.rs, src/objective.rs")],
  ["Booster::train, AdditiveTree::predict, the boosting of the command line tool"])

p("P23", "The command line tool reports what the library computes",
  "The tool's three modes parse name=value arguments, load train and optional test files, and print exactly the predictions and metric values that the library yields for the same configuration and files; metrics during boosting are printed every metric_frequency iterations for the ensemble so far. Unknown modes, fields, objectives, metrics and unreadable files make it exit with an error and no predictions.",
  ["inputs", "configurations"],
  "all argument lists over the modes, fields and file classes",
  "The binary is untested.",
  ["src/bin/run.rs", "src/boost.rs"],
  [("modes", "src/bin/run.rs main/parse/load_data"), ("metric reporting", "src/boost.rs train_one_iter")],
  ["stdout and exit status of run_bitboost"])

p("P24", "The Python package hands data, settings and results over unchanged",
  "Training and predicting through the Python classes gives exactly the predictions of the library for the same columns, categorical set and parameters, for any float or integer input array and memory layout; every constructor parameter reaches the library. A call the library rejects raises an exception instead of returning made-up results.",
  ["inputs", "configurations", "histories"],
  "all small arrays, dtypes, layouts, parameters and call sequences",
  "The Python package has no tests.",
  ["python/bitboost/bitboost.py", "python/bitboost/sklearn.py", "src/c_api.rs"],
  [("ctypes marshalling", "python/bitboost/bitboost.py RawBitBoost"), ("estimators", "python/bitboost/sklearn.py")],
  ["RawBitBoost, BitBoostRegressor, BitBoostClassifier"])

p("P25", "A model is a function of data and configuration only",
  "Training twice on the same data, configuration and seed gives bit-identical models, irrespective of what the process trained, predicted or freed before, of reuse of learner resources or objectives between trees, of the previous contents of the memory it is given, of the level of messages that is logged, and of the threads that make the calls. Permuting unused state such as constant columns or names never changes predictions.",
  ["histories", "inputs", "configurations"],
  "all pairs of training histories, all memory fill patterns",
  "Stale state in pooled memory, buffers or objectives shows only for particular histories.",
  ["src/tree/learner.rs", "src/slice_store.rs", "src/objective.rs", "src/dataset.rs"],
  [("reset of pooled resources", "src/tree/learner.rs TreeLearnerContext::reset, src/slice_store.rs reset/resize"), ("objective initialisation", "src/objective.rs initialize_base"), ("seeding", "src/dataset.rs InnerDataset::new")],
  ["predictions of repeated trainings"])

p("P26", "Memory is given back and bounded by data, model and tree depth",
  "Releasing a data set, trainer, model or C context, replacing the data or model of a context, and every failing call leave nothing behind: repeating any sequence of operations does not increase the memory in use. While training, the memory needed apart from data and resulting trees does not grow with the number of iterations, and grows with the depth of a tree, not with the number of its nodes (its histograms and masks are used again); freed or reset pool slices are reused. A data set keeps memory in proportion to its values, however it was read, and training needs memory in proportion to rows and columns.",
  ["histories", "configurations", "inputs"],
  "all short histories of C calls, all library life cycles over the settings, all iteration counts, depths and sizes",
  "Leaks have no effect on any result, so no test that looks at values can see them; long-lived hosts of the library (Python, C) die of them.",
  ["src/c_api.rs", "src/slice_store.rs", "src/tree/learner.rs", "src/dataset.rs", "src/boost.rs"],
  [("release of contexts", "src/c_api.rs Context::dealloc, bb_refresh_data, bb_train"), ("pooled storage", "src/slice_store.rs SliceStore free list, reset"), ("reuse per node and tree", "src/tree/learner.rs TreeLearner::train, TreeLearnerContext::reset")],
  ["bytes in use of the process's allocator after and during operations"])

p("P27", "No call touches memory that is not its own",
  "On valid input no operation of the library, on blocks, bit vectors, packed values, pools, histograms, data sets, trainers, models, tables read from text or C contexts, reads memory that was never written, reads or writes outside of the memory it owns or was given (a column handed over through the C interface has exactly as many values as the data set has rows), accesses memory after giving it back or gives it back twice, uses a wrongly aligned address, or accesses memory in two threads at once without synchronisation. The checked accessors refuse indices outside of their container.",
  ["inputs", "histories", "configurations"],
  "all lengths and operands around word and block boundaries, all short histories of pools and of C calls, all combinations of row counts, widths, column shapes and settings of a grid",
  "An access just outside of an allocation mostly reads neighbouring bytes that do not influence the result, or padding; only later, on other data or another allocator, it crashes or corrupts. Tests see values only.",
  ["src/slice_store.rs", "src/bitblock.rs", "src/simd.rs", "src/count_and_sum.rs", "src/bitslice.rs", "src/dataset.rs", "src/c_api.rs", "src/tree/learner.rs"],
  [("unchecked reads of vectors", "src/slice_store.rs BitVec::get_unchecked, for_each_index*, IndexIter"), ("pools", "src/slice_store.rs SliceStore alloc, realloc, alloc_slice"), ("kernels", "src/simd.rs, src/count_and_sum.rs load functions"), ("reinterpreted buffers", "src/dataset.rs numerical splits; src/bitblock.rs cast"), ("buffers of the caller", "src/c_api.rs bb_set_feature_data, bb_predict")],
  ["faults reported by the memory monitors"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
