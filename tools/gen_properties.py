#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

ELM, HP, SL, SP, SK, H5 = ("hpelm/elm.py", "hpelm/hp_elm.py", "hpelm/nnets/slfn.py", "hpelm/nnets/slfn_python.py",
                           "hpelm/nnets/slfn_skcuda.py", "hpelm/modules/hdf5_tools.py")

p("C01", "Accumulated training data does not depend on batching",
  "However in-memory training data is split - any batch size, one add_data call or several consecutive ones - the accumulated "
  "correlation matrices equal H'H + norm*I and H'T of the whole data set (norm added exactly once), for the default and the basic "
  "solver alike. Every sample contributes exactly once, and a following solve therefore gives the same model up to rounding.",
  ["inputs", "histories", "configurations"],
  "every data matrix, sample count, batch size, split of the data over successive calls, neuron mix, precision and solver",
  "Tests train with the default batch of 1000 on data that fits one batch (or check only that the attribute is set); none compares batched with unbatched sums.",
  [ELM, SL, SP], [("batch loop of ELM.add_data", "hpelm/elm.py:add_data"), ("rank-k update", "hpelm/nnets/slfn_python.py:add_batch"), ("reference update", "hpelm/nnets/slfn.py:add_batch")],
  [("nnet.HH, nnet.HT", "accumulated H'H + norm*I (upper triangle in the default solver) and H'T", "hpelm/nnets/slfn.py:reset")],
  ["nnet.get_corr()", "nnet.get_B()"])

p("C02", "Output weights solve the regularised least-squares problem",
  "The output weights obtained by training or from given correlation matrices satisfy HH*B = HT for the symmetric matrix HH that was "
  "accumulated or supplied, whether HH is supplied as a full symmetric matrix or only its upper triangle was accumulated. When HH is "
  "singular, the weights still are a least-squares solution of that same system; solving changes neither matrix.",
  ["inputs", "configurations"],
  "every symmetric positive semidefinite HH (full rank or singular), every HT, either CPU solver, every route to solving",
  "Tests only look at B through accuracy thresholds on a few well-conditioned data sets; the singular fallback is never reached with a checked result.",
  [SL, SP, ELM, HP], [("Cholesky solve with SVD fallback", "hpelm/nnets/slfn_python.py:solve_corr"), ("pseudo-inverse solve", "hpelm/nnets/slfn.py:solve_corr"), ("solve from files", "hpelm/hp_elm.py:solve_corr")],
  None, ["nnet.get_B()", "predict()"])

p("C03", "HPELM training uses exactly the requested sample range",
  "HPELM training or data accumulation with istart and icount uses every sample of rows istart .. min(istart+icount, N)-1 exactly once, "
  "each input row together with the target row of the same index, and no other row, for every batch size. The result equals in-memory "
  "ELM training on that slice of the data, from HDF5 files or arrays alike.",
  ["inputs", "configurations"],
  "every N, istart < N, icount (also beyond the end, also omitted), batch size and data; HDF5 or array input; synchronous train and add_data",
  "Tests check that istart/icount have some effect on four rows in one batch; batch boundaries combined with ranges are never exercised.",
  [HP], [("range clipping and batch loop", "hpelm/hp_elm.py:add_data"), ("argument handling", "hpelm/hp_elm.py:train")],
  None, ["nnet.get_corr()", "nnet.get_B()"])

p("C04", "HPELM predict and project fill row i from input row istart+i",
  "HPELM predict and project over a range return or write exactly min(icount, N-istart) rows, where output row i is what the in-memory "
  "model gives for input row istart+i, for every batch size and for result arrays, caller-supplied arrays and HDF5 files. Rows of a "
  "larger caller-supplied array outside that range are left untouched.",
  ["inputs", "configurations"],
  "every N, istart < N, icount, batch size, data and output destination",
  "Tests call predict and project once each on 4 rows with the full range and never look at the values.",
  [HP, SL], [("batch loop of predict", "hpelm/hp_elm.py:predict"), ("batch loop of project", "hpelm/hp_elm.py:project")],
  None, ["returned array", "HDF5 file contents"])

p("C05", "error() computes the documented metric, for ELM and HPELM alike",
  "error(T, Y) is the mean squared error for regression, the share of samples whose largest output is not the true class for 'c', the "
  "class-weighted average of per-class misclassification rates (divided by the sum of the weights; a class without samples counts as rate 0) for 'wc', and the share of "
  "wrong thresholded (>0.5) labels for 'ml'. HPELM gives the same value as ELM on the selected rows for every istart, icount and batch size.",
  ["inputs", "configurations"],
  "every T, Y, class weights, mode, range and batch size",
  "Tests use three hand-written samples per metric in a single batch; classes without samples, uneven last batches and ranges are not covered.",
  [ELM, HP], [("metrics", "hpelm/elm.py:_error"), ("batched metrics", "hpelm/hp_elm.py:_error")], None, ["return value of error()"])

p("C06", "Confusion matrix counts every sample once, in any batching",
  "For 'c' and 'wc', element (i, j) of the confusion matrix is the number of samples whose true class is i and whose largest predicted "
  "output is j, so its elements sum to the number of samples; for 'ml' it is the number of samples having label i and predicted label j. "
  "The result does not depend on the batch size.",
  ["inputs", "configurations"], "every T, Y, number of classes, mode, batch size, array or HDF5 input",
  "Tests only assert the sum is positive, plus two hand-written 4-sample matrices in one batch.",
  [ELM], [("batched counting", "hpelm/elm.py:confusion")], None, ["return value of confusion()"])

p("C07", "Saving and loading a model preserves it",
  "A model stored with save or dumps and read with load or loads into any ELM or HPELM object, whatever that object held before, has the same "
  "inputs, outputs, classification mode, class weights, norm, neurons in the same order, and output weights (in the receiving object's precision), and gives the "
  "same projections and predictions; it can be trained further with the same results. Loading keeps the receiving object's solver type.",
  ["inputs", "configurations", "histories"],
  "every model (neuron mixes, trained or not, each classification mode), every receiving object (fresh or already used, each solver and precision)",
  "One round trip of one model into a fresh object is tested; re-used objects, explicit solvers and training after loading are not.",
  [ELM], [("serialisation", "hpelm/elm.py:_get_output_format"), ("restoring", "hpelm/elm.py:_update_from_output")], None,
  ["predict()", "project()", "nnet.get_neurons()"])

p("C08", "Parallel workers' partial results always add up",
  "When several workers accumulate disjoint parts of the data into the same pair of HH/HT files, the files finally hold norm*I (once) "
  "plus the sum of all workers' contributions, for every interleaving of the workers' file operations and whether or not the files existed before. "
  "No worker ever sees or writes a partially created file.",
  ["schedules", "configurations"], "every interleaving of two and three workers, files present or absent at the start, repeated additions by one worker",
  "The test runs two additions one after the other; interleavings need control over the scheduler.",
  [H5, HP], [("file preparation", "hpelm/modules/hdf5_tools.py:_prepare_fHH"), ("locked update", "hpelm/modules/hdf5_tools.py:_write_fHH")],
  [("fHH, fHT", "files holding the running sums", "hpelm/modules/hdf5_tools.py")], ["contents of fHH and fHT"])

p("C09", "Asynchronous I/O gives the synchronous result and always terminates",
  "Asynchronous training and prediction use exactly the same rows in the same pairing as the synchronous versions and give the same model, "
  "HH/HT files and predictions, for every batch size and range. Under every scheduling of the reader and writer processes they terminate, without deadlock and with all rows written.",
  ["schedules", "inputs"], "every interleaving of main, reader and writer processes (queue capacity 1), every N, range and batch size within the bounds",
  "Tests run train_async and predict_async once on 4 rows in a single batch and do not look at the values.",
  [HP, H5], [("async accumulation", "hpelm/hp_elm.py:add_data_async"), ("async prediction", "hpelm/hp_elm.py:predict_async"), ("reader/writer", "hpelm/modules/hdf5_tools.py:_ireader,_iwriter")],
  None, ["nnet.get_corr()", "output file"])

p("C10", "Model-size search returns the best size it evaluated",
  "Training with 'V', 'LOO' or 'CV' ends for every model size and every error values, evaluates only sizes between 1 (3 for 'CV') and the number "
  "of ranked neurons (all of them when there are fewer), and the model it leaves has the evaluated size whose validation error plus size penalty (1% of the full-size error, in proportion to "
  "the size) is smallest. Each size is scored with the top-ranked neurons of that size only.",
  ["inputs", "configurations"], "every number of neurons within the bound, every sequence of validation errors including ties, with and without kmax",
  "Tests only compare final accuracy with loose thresholds, so a search that stops at a slightly worse size, or scores the wrong size, passes.",
  ["hpelm/mss_v.py", "hpelm/mss_loo.py", "hpelm/mss_cv.py"], [("interval search", "hpelm/mss_v.py:train_v"), ("interval search", "hpelm/mss_loo.py:train_loo"), ("interval search", "hpelm/mss_cv.py:train_cv")],
  None, ["nnet.L after train()", "nnet.get_neurons()"])

p("C11", "A size-selected model is the plain model on its selected neurons",
  "After training with 'V', 'LOO' or 'CV' the model consists of the selected top-ranked neurons with unchanged weights, and its output weights equal those of basic "
  "training of exactly these neurons on the whole training set in the same mode, including class weights for 'wc'.",
  ["inputs", "configurations"], "every data set, neuron mix, ranking, selection mode and classification mode",
  "Tests look at accuracy only; a final model trained on part of the data, without class weights or with permuted neurons still passes.",
  ["hpelm/mss_v.py", "hpelm/mss_loo.py", "hpelm/mss_cv.py", SL], [("final retraining", "hpelm/mss_v.py:train_v"), ("pruning", "hpelm/nnets/slfn.py:_prune")],
  None, ["nnet.get_neurons()", "nnet.get_B()"])

p("C12", "LOO score equals explicit leave-one-out retraining",
  "The leave-one-out error used to choose the model size in regression equals the mean squared error of the predictions for each sample by a "
  "model of that size trained (with the same regularisation) on all other samples.",
  ["inputs"], "every data set and hidden-layer matrix for which the leave-one-out models exist",
  "No test computes an explicit leave-one-out error.",
  ["hpelm/mss_loo.py", ELM], [("PRESS formula", "hpelm/mss_loo.py:train_loo"), ("PRESS error", "hpelm/elm.py:_error")], None, ["error used for selection"])

p("C13", "Cross-validation folds are disjoint and the test error is unbiased",
  "In every split of 'CV' training the training, validation and test parts are disjoint and together cover all samples, and over the k splits every sample is "
  "used exactly once for validation and once for test. The returned error is the average, over the splits, of the test-part error of models of the "
  "selected size trained on the training part only.",
  ["inputs", "configurations"], "every number of samples, k >= 3 and data set",
  "The test only checks that some value is returned.",
  ["hpelm/mss_cv.py"], [("fold construction", "hpelm/mss_cv.py:train_cv"), ("test error", "hpelm/mss_cv.py:train_cv")], None, ["return value of train(..., 'CV')"])

p("C14", "Neuron rankings are valid and respect kmax",
  "A ranking, random or by relevance ('OP', either ranking algorithm), lists distinct existing neurons; the relevance ranking returns as many as requested, as far as neurons, samples and kmax allow, "
  "starts with the neuron most correlated with the targets, and never alters the data it ranks. With kmax the final model has at most kmax neurons.",
  ["inputs", "configurations"], "every hidden-layer matrix, target matrix, number of neurons and kmax within the bounds, including a single neuron",
  "Tests run each algorithm once on random data and check nothing about the ranking.",
  ["hpelm/modules/mrsr.py", "hpelm/modules/mrsr2.py", ELM], [("MRSR", "hpelm/modules/mrsr.py:mrsr"), ("MRSR2", "hpelm/modules/mrsr2.py:mrsr2"), ("dispatch and kmax", "hpelm/elm.py:_ranking")],
  None, ["return value of mrsr, mrsr2", "nnet.L"])

p("C15", "Hidden layer applies each neuron's own function, weights and bias",
  "After any sequence of add_neurons calls, project() has one column per neuron: neurons grouped by type in order of first use, in order of addition within a "
  "type, each computed from its own weight column and bias with its documented function (linear, sigmoid, tanh, the three radial basis functions, or a custom numpy ufunc of XW+b). "
  "predict() equals project() times the output weights.",
  ["inputs", "histories"], "every sequence of add_neurons calls, every weights, biases and inputs, for ELM and HPELM",
  "Tests check one tanh neuron's projection and the merged weights of one type; mixes of types and column order are not observed.",
  [ELM, SL], [("merging", "hpelm/nnets/slfn.py:add_neurons"), ("projection", "hpelm/nnets/slfn.py:_project"), ("preparation", "hpelm/elm.py:add_neurons")],
  [("nnet.neurons", "list of (count, function, W, B) per type", "hpelm/nnets/slfn.py")], ["project()", "predict()"])

p("C16", "Pruning keeps exactly the chosen neurons",
  "Pruning to a set of neuron indexes keeps exactly those neurons - each with its own function, weights and bias, whichever type it belongs to - and drops all others; "
  "within a type they follow the given order. Output weights and accumulated data that no longer fit are discarded.",
  ["inputs", "histories"], "every neuron mix and every list of distinct indexes, repeated pruning",
  "No test inspects neurons after pruning.",
  [SL], [("pruning", "hpelm/nnets/slfn.py:_prune")], None, ["nnet.get_neurons()", "project()"])

p("C17", "Validation over stored matrices reports each size's true error",
  "validation_corr() returns increasing distinct model sizes that start at 3 (or fewer neurons if the model is smaller) and end at the full model, or the sizes given; for every size the reported error equals error() of the model made of the "
  "first that many neurons solved from the stored matrices, in every classification mode and for every batch size, with the matching confusion matrix. It leaves the model "
  "with the best size's neurons and weights.",
  ["inputs", "configurations"], "every stored HH/HT, validation set, batch size, number of steps and mode",
  "Tests check that the first error exceeds the last on random data.",
  [HP], [("size grid, batched errors, final pruning", "hpelm/hp_elm.py:validation_corr")], None, ["return values", "predict() afterwards"])

p("C18", "make_hdf5 stores the given data unchanged",
  "make_hdf5 creates an HDF5 file holding exactly the given matrix - from an array (1-dimensional data becomes one column), an .npy file, or a delimited text/csv file after skipping the requested header rows - with "
  "values and row order preserved in the requested type, for every compression level; a shape tuple creates a zero matrix of that shape.",
  ["inputs", "configurations"], "every matrix, data type, delimiter, number of skipped rows and compression level",
  "Tests use make_hdf5 on arrays as a helper and never read the file back; text input is not tested.",
  [H5], [("data loading and writing", "hpelm/modules/hdf5_tools.py:make_hdf5")], None, ["contents of the HDF5 file"])

p("C19", "normalize_hdf5 standardises the file by the right statistics",
  "normalize_hdf5 without parameters computes per-column mean and standard deviation of the whole file, stores them with the data and leaves every value as (x - mean)/std (constant columns divided by 1), for every batch size. "
  "A second call returns the stored parameters and leaves the data alone; with given parameters exactly those are applied and stored, and the caller's vectors are not modified.",
  ["inputs", "histories", "configurations"], "every matrix, batch size, given or computed parameters, repeated calls",
  "normalize_hdf5 has no test at all.",
  [H5], [("statistics and batched update", "hpelm/modules/hdf5_tools.py:normalize_hdf5")], None, ["contents and attributes of the HDF5 file", "return value"])

p("C20", "Malformed input is rejected before it changes the model",
  "Data with the wrong number of columns, differing sample counts of X and T, more than two dimensions or non-numeric type, neurons with wrongly shaped weights or biases, an unknown neuron type, training without neurons, class weights of wrong length, or "
  "contradicting training options raise an error, and the neurons and output weights are unchanged afterwards. One-dimensional data is accepted as one column.",
  ["inputs", "configurations"], "every shape of X, T, W, B and w within the bounds, every combination of options, ELM and HPELM",
  "Tests try one wrong shape for each argument of train only, and never check what the failed call left behind.",
  [ELM, HP, SL], [("data checks", "hpelm/elm.py:_checkdata"), ("option checks", "hpelm/elm.py:_train_parse_args"), ("neuron checks", "hpelm/elm.py:add_neurons"), ("matrix checks", "hpelm/nnets/slfn.py:set_B,set_corr; hpelm/hp_elm.py:_checkcorr")],
  None, ["exceptions", "nnet.get_neurons()", "nnet.get_B()"])

p("C21", "The caller's arrays and input files are never modified",
  "No call of training (any mode), prediction, projection, error, confusion, neuron creation or ranking modifies the arrays passed in or the contents of input "
  "HDF5 files, and changing an array after the call that received it does not change the model.",
  ["inputs", "configurations"], "every call with every data, weights and mode",
  "No test compares its arguments with copies after a call.",
  [ELM, HP, SL, SP], [("copies in add_batch", "hpelm/nnets/slfn.py:add_batch"), ("copies in add_neurons", "hpelm/elm.py:add_neurons")], None, ["arguments after the call"])

p("C22", "Training does not depend on what the object did before",
  "train() starts afresh: the resulting output weights depend only on the neurons, the data and the options of this call, not on earlier training, accumulated data or "
  "earlier classification mode, class weights or ranking options. Options are recognised in upper or lower case, and 'r' trains for regression.",
  ["histories", "inputs", "configurations"], "every sequence of training calls with any options on one object",
  "Each test trains a fresh object (one trains twice and checks only that the results differ).",
  [ELM], [("reset and parsing", "hpelm/elm.py:_train_parse_args"), ("mode dispatch", "hpelm/elm.py:train")], None, ["nnet.get_B()", "classification"])

p("C23", "A model never predicts with output weights of other neurons",
  "After any sequence of adding neurons, training, pruning, loading, setting weights or failed calls, the model either has output weights of shape (neurons, outputs) computed or set for its "
  "present neurons, or predict() refuses with an error. Resetting accumulated data keeps a trained model operational.",
  ["histories"], "every sequence of operations up to the bound, from any state",
  "Tests use one fixed order of operations.",
  [SL, ELM, HP], [("invalidation", "hpelm/nnets/slfn.py:add_neurons,_prune,reset"), ("checks", "hpelm/nnets/slfn.py:set_B,_predict")],
  [("nnet.B", "output weights or None", "hpelm/nnets/slfn.py")], ["predict()"])

p("C24", "Correlation matrices survive get, set and storing",
  "The HH obtained from the model is the full symmetric H'H + norm*I, setting matrices and getting them back returns the same matrices, and continuing to add data on top of them or solving them gives the right result. "
  "Storing partial results to HH/HT files adds exactly H'H and H'T to them and leaves the in-memory matrices intact.",
  ["inputs", "histories", "configurations"], "every matrices, data, solver, and order of set/get/add/store",
  "No test reads the matrices.",
  [SL, SP, HP, H5], [("triangle handling", "hpelm/nnets/slfn_python.py:get_corr"), ("set", "hpelm/nnets/slfn.py:set_corr"), ("norm subtraction and storing", "hpelm/hp_elm.py:add_data")], None, ["nnet.get_corr()", "HH/HT files"])

p("C25", "The GPU solver computes the same network as the CPU solver",
  "Given the documented behaviour of the GPU library calls, the GPU solver's projections, predictions, accumulated matrices (weighted or not, both precisions), solution, pruning and stored neurons equal those of the basic solver.",
  ["inputs", "configurations"], "every data, neurons and weights, both precisions",
  "The GPU solver is never imported by the tests (no GPU).",
  [SK], [("GPU solver", "hpelm/nnets/slfn_skcuda.py")], None, ["get_corr(), get_B(), _project(), _predict()"])

p("C26", "Weighted classification weighs each sample by its class",
  "In 'wc' training each sample counts with the weight of its class: the accumulated matrices are H'WH + norm*I and H'WT with W the given class weights, or by default the total number of samples divided by the number "
  "of samples of the class over all used data. This holds for ELM and HPELM, every batch size and every range.",
  ["inputs", "configurations"], "every one-hot T, weights, batch size and range",
  "Tests check one two-class example where the heavier class wins, in a single batch.",
  [ELM, HP, SL, SP], [("automatic weights", "hpelm/elm.py:add_data; hpelm/hp_elm.py:add_data"), ("weighting", "hpelm/nnets/slfn_python.py:add_batch")], None, ["nnet.get_corr()", "wc"])

p("C27", "Out-of-core processing never loads more than a batch",
  "HPELM training, accumulation, prediction, projection, error and confusion on HDF5 files, and text import and normalisation, read and process at most one batch of rows at a time, whatever the size of the data.",
  ["inputs", "configurations"], "every N, batch size and range",
  "Test data fits into one batch, so reading everything at once goes unnoticed.",
  [HP, H5, ELM], [("batch loops", "hpelm/hp_elm.py"), ("csv import", "hpelm/modules/hdf5_tools.py:make_hdf5"), ("normalisation", "hpelm/modules/hdf5_tools.py:normalize_hdf5")], None, ["rows per HDF5 read", "rows per nnet call"])

p("C28", "Computation uses the requested precision",
  "With single precision the stored neurons, accumulated matrices, output weights and HDF5 outputs are 32-bit, with double precision (default, or any unknown name) 64-bit, under every documented way to ask for it, and also after loading a model; the default norm is 50 machine epsilons of that precision.",
  ["configurations", "inputs"], "every spelling of the precision, every input data type, solver and entry point",
  "Tests check the attribute, not the data types of what is computed.",
  [ELM, SL, SP], [("precision parsing", "hpelm/elm.py:__init__"), ("casts", "hpelm/nnets/slfn.py,slfn_python.py")], None, ["dtypes of get_neurons(), get_corr(), get_B()"])

p("C29", "RBF parameter sampler returns data points and positive widths",
  "rbf_param returns k centroids, each equal to some row of the data, and k strictly positive widths within one standard deviation around the mean sampled distance, for arrays and HDF5 files alike.",
  ["inputs"], "every data matrix with at least two distinct samples, every outcome of the random generator",
  "rbf_param has no test.",
  ["hpelm/modules/rbf_param.py"], [("sampling", "hpelm/modules/rbf_param.py:rbf_param")], None, ["return value"])

p("C30", "Models are independent of each other",
  "Whatever is done with one model object - creating, training, adding or pruning neurons, setting weights or matrices, loading a copy of another model, errors counted, options changed - another model keeps its neurons, "
  "accumulated data, output weights, options and predictions, whether it was created before or after, has the same arrays given, or one was loaded from a dump of the other.",
  ["inputs", "histories"], "every operation on the other model at every point of training this one",
  "Tests use one model at a time.",
  [ELM, HP, SL, SP, SK], [("object state", "hpelm/elm.py:__init__; hpelm/nnets/slfn.py:__init__"), ("copies", "hpelm/elm.py:save/load; hpelm/nnets/slfn.py:set_B,set_corr,add_neurons")], None, ["get_neurons()", "get_corr()", "get_B()", "predict()"])

p("C31", "Asking a model changes nothing",
  "Projecting, predicting, counting errors, confusion matrices, printing, reading neurons, matrices or weights, and saving leave a model exactly as it was: the same question gives the same answer again, predictions stay the same, "
  "and training continues with the data accumulated before, while matrices, weights and predictions it returned earlier stay as they were, for ELM and HPELM, trained or not, in every classification mode.",
  ["inputs", "histories"], "every sequence of one or two queries between training and further training, all data",
  "Tests ask once, at the end.",
  [ELM, HP, SL, SP], [("queries", "hpelm/elm.py:predict,project,error,confusion,save,dumps; hpelm/hp_elm.py"), ("solver", "hpelm/nnets/slfn.py:_project,_predict,get_corr")], None, ["get_corr()", "get_B()", "predict()"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
