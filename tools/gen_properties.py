#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ schedules
p("S01", "Pairwise matrices do not depend on n_jobs or on thread scheduling",
  "For every pairwise matrix function (cdist_dtw, cdist_ctw, cdist_frechet, cdist_soft_dtw, cdist_soft_dtw_normalized, cdist_gak, cdist_sax), every choice of n_jobs and every interleaving of the worker threads, entry (i, j) of the returned matrix equals the value the corresponding two-series function gives for series i and series j with the same metric parameters (global constraint, radius, slope, gamma, sigma), including variable-length and multivariate series and the one-dataset and two-dataset forms. Two runs with the same arguments are bit-identical whatever the schedule, no run deadlocks, and neither input dataset is modified.",
  ["schedules", "inputs", "configurations"],
  "All interleavings of the worker threads, all n_jobs, all dataset shapes and metric parameters.",
  "The suite calls the matrices with one or two n_jobs values and lets the OS pick one schedule; it cannot place a switch inside a kernel, and compares few parameter combinations of the parallel branch with the serial one.",
  ["tslearn/metrics/utils.py", "tslearn/metrics/_dtw.py", "tslearn/metrics/_soft_dtw.py", "tslearn/metrics/_gak.py", "tslearn/metrics/_frechet.py", "tslearn/metrics/ctw.py", "tslearn/metrics/sax.py"],
  [("generic pairwise driver (joblib threads)", "tslearn/metrics/utils.py:_cdist_generic"),
   ("extra parallel sections for the normalisers", "tslearn/metrics/_soft_dtw.py:_cdist_soft_dtw_normalized, tslearn/metrics/_gak.py:_cdist_gak")],
  observe=["returned matrix", "input arrays after the call"])
p("S02", "Data-parallel kernels give the sequential result for any iteration schedule",
  "For any distribution of loop iterations over threads and any interleaving of them, the numba-parallel kernels (normalized cross-correlation matrix, shift-aligned datasets, inverse PAA/SAX/1d-SAX transforms, SAX and 1d-SAX distances, regression slopes, batched soft-DTW values and gradients) return what running the iterations one after the other in order returns. No iteration observes or overwrites another's intermediate data.",
  ["schedules", "inputs"],
  "All assignments of iterations to threads and all interleavings of the iteration bodies, all array shapes.",
  "The compiled kernels run with whatever chunking the machine gives (2 threads in the suite, small arrays), so a shared scratch buffer or an order-dependent accumulation is rarely exposed.",
  ["tslearn/metrics/cycc.py", "tslearn/metrics/cysax.py", "tslearn/metrics/soft_dtw_fast.py", "tslearn/metrics/soft_dtw_loss_pytorch.py"],
  [("prange loops writing disjoint rows", "tslearn/metrics/cycc.py, tslearn/metrics/cysax.py, tslearn/metrics/soft_dtw_fast.py, tslearn/metrics/soft_dtw_loss_pytorch.py")],
  observe=["kernel outputs"])
p("S03", "Barycenters do not depend on n_jobs or on worker completion order",
  "dtw_barycenter_averaging (and its petitjean and subgradient variants) and softdtw_barycenter return, for every n_jobs and every order in which worker threads run and finish, the same barycenter as the serial computation up to floating-point rounding. For a fixed n_jobs the result is bit-for-bit the same whatever the schedule, no run deadlocks, and the inputs (series, weights, initial barycenter) are left unmodified.",
  ["schedules", "inputs", "configurations"],
  "All worker interleavings and completion orders, all n_jobs, datasets, weights, initial barycenters and constraints.",
  "The tests compare against stored values with two decimals on one OS-chosen schedule.",
  ["tslearn/barycenters/dba.py", "tslearn/barycenters/softdtw.py", "tslearn/barycenters/utils.py"],
  [("parallel assignment step", "tslearn/barycenters/dba.py:_petitjean_assignment, _mm_assignment"),
   ("parallel objective/gradient accumulation", "tslearn/barycenters/softdtw.py:_acc_softdtw_func")],
  observe=["returned barycenter and cost"])
p("S04", "Fitted models and predictions do not depend on n_jobs",
  "For every estimator with an n_jobs parameter (nearest-neighbour models, k-means, kernel k-means, DBSCAN, SVMs) and for silhouette_score, fitting and querying with any n_jobs under any worker schedule gives the same fitted attributes and answers as n_jobs=None with the same random_state. No fit or query deadlocks because of n_jobs.",
  ["schedules", "configurations", "inputs"],
  "All worker schedules during fit and query, all n_jobs, metrics and datasets.",
  "Estimator tests hardly ever set n_jobs and never control the schedule; agreement for all schedules is a quantifier over interleavings.",
  ["tslearn/neighbors/neighbors.py", "tslearn/clustering/kmeans.py", "tslearn/clustering/dbscan.py", "tslearn/clustering/utils.py", "tslearn/svm/svm.py"],
  [("n_jobs passed down to the pairwise and barycenter layers", "estimators' _transform/_precompute_cross_dist/_get_kernel/_preprocess_sklearn")],
  observe=["public fitted attributes", "predict/transform/kneighbors outputs"])
p("S05", "A fitted estimator answers concurrent callers as if they came one by one",
  "When several threads query one fitted estimator at the same time (predict, predict_proba, kneighbors, transform, inverse_transform, distance, decision_function, early prediction), every caller gets, under every interleaving, the answer it would get alone, and no call fails because of the others. After the calls the estimator's hyper-parameters and public fitted attributes are what they were before. (LearningShapelets, whose inference runs inside keras, is outside this guarantee.)",
  ["schedules", "histories"],
  "All interleavings of 2 to 4 caller threads issuing queries of different shapes on one shared estimator.",
  "No existing test issues concurrent queries, and a real two-thread test would sample an arbitrary handful of schedules.",
  ["tslearn/neighbors/neighbors.py", "tslearn/bases/bases.py", "tslearn/neural_network/neural_network.py", "tslearn/svm/svm.py", "tslearn/clustering/kmeans.py", "tslearn/clustering/kshape.py", "tslearn/piecewise/piecewise.py", "tslearn/early_classification/early_classification.py", "tslearn/forecasting/_arima.py"],
  [("inference works on a private view of the estimator", "tslearn/neighbors/neighbors.py, tslearn/neural_network/neural_network.py")],
  state=[("metric / n_features_in_", "hyper-parameter and fitted attribute some queries need overridden", "estimator __dict__")],
  observe=["per-call results", "get_params()", "public fitted attributes"])
p("S06", "Independent work in different threads does not interfere",
  "Any tslearn computations (metric functions and paths, pairwise matrices, barycenters, preprocessing transforms, dataset conversions, and fits of separate estimator objects with integer random_state) running at the same time in different threads, possibly on the same input arrays, each return what they return when run alone. The library keeps no mutable state shared between independent calls, and the shared input arrays are not modified.",
  ["schedules", "inputs"],
  "All interleavings of several independent public calls sharing read-only inputs.",
  "Hidden module-level or default-argument state only shows when two calls overlap at particular points; the suite is sequential within a process.",
  ["tslearn/metrics", "tslearn/preprocessing", "tslearn/clustering", "tslearn/barycenters", "tslearn/utils", "tslearn/backend/backend.py"],
  [("stateless functions, per-call buffers, backend chosen per call", "tslearn/metrics/*, tslearn/backend/backend.py:instantiate_backend")],
  observe=["per-call results", "input arrays"])
# ------------------------------------------------------------------ histories
p("H01", "Queries are read-only: answers depend only on the fitted model and the query",
  "For every fitted estimator and transformer, a query (predict, predict_proba, transform, inverse_transform, kneighbors, distance, decision_function, score-like calls) gives the same answer whatever queries, cloning or get_params calls came before it, including queries on longer, shorter, fewer or differently ordered series and queries that were rejected. Querying several series in one call gives the same per-series answers as querying them one at a time or in another order (up to rounding), and never changes hyper-parameters or public fitted attributes.",
  ["histories", "inputs"],
  "All sequences of queries (valid and rejected) on a fitted model, all batch splits and orders.",
  "Tests query a freshly fitted model once or twice; history dependence needs a particular earlier query.",
  ["tslearn/neighbors/neighbors.py", "tslearn/clustering", "tslearn/preprocessing/preprocessing.py", "tslearn/piecewise/piecewise.py", "tslearn/svm/svm.py", "tslearn/matrix_profile/matrix_profile.py", "tslearn/shapelets/shapelets.py", "tslearn/forecasting/_arima.py", "tslearn/early_classification/early_classification.py"],
  [("fit-time attributes are written in fit only", "all estimators")],
  observe=["query results along the history", "get_params()", "public fitted attributes"])
p("H02", "Refitting forgets the past",
  "After any history of fits (successful, failed or interrupted), hyper-parameter changes through set_params, and queries, fitting an estimator gives, for every public fitted attribute a new estimator would have and for every answer, exactly what fitting a new estimator with the same hyper-parameters on the same data gives (integer random_state). In particular, changing a hyper-parameter and refitting takes effect, and data seen in an earlier fit has no influence.",
  ["histories", "fault_sequences", "inputs"],
  "All sequences of fit/set_params/query/failed fit/interrupted fit operations over an estimator object.",
  "Tests fit each object once; leftover state matters only after specific multi-step histories.",
  ["tslearn/neighbors/neighbors.py", "tslearn/clustering/kmeans.py", "tslearn/clustering/kshape.py", "tslearn/clustering/dbscan.py", "tslearn/piecewise/piecewise.py", "tslearn/shapelets/shapelets.py", "tslearn/svm/svm.py", "tslearn/forecasting/_arima.py", "tslearn/preprocessing/preprocessing.py", "tslearn/matrix_profile/matrix_profile.py", "tslearn/early_classification/early_classification.py", "tslearn/neural_network/neural_network.py"],
  [("fit re-derives every fitted attribute from hyper-parameters and data", "all estimators' fit")],
  observe=["public fitted attributes", "query results compared with a fresh clone"])
p("H03", "Hyper-parameters and caller-owned objects are never modified",
  "No sequence of fit, query, serialization, clone or failing calls changes what get_params reports, nor modifies any object handed in by the caller: data arrays, labels, sample weights, metric_params/kernel_params dictionaries, init arrays, weights, shapelet-size dictionaries or a base classifier. Changing results returned by a query does not change the model.",
  ["histories", "fault_sequences", "inputs"],
  "All operation sequences, including calls that raise part-way, over all estimators and functions that accept caller-owned mutable objects.",
  "The scikit-learn checks cover dictionaries of the estimator for default parameters only; nested dictionaries, inits and failure paths are not sampled.",
  ["tslearn/clustering/kmeans.py", "tslearn/clustering/kshape.py", "tslearn/clustering/dbscan.py", "tslearn/neighbors/neighbors.py", "tslearn/barycenters", "tslearn/preprocessing/preprocessing.py", "tslearn/shapelets/shapelets.py", "tslearn/early_classification/early_classification.py", "tslearn/forecasting/_arima.py", "tslearn/bases/bases.py"],
  [("defensive copies of parameter dictionaries, inits and datasets", "all estimators; tslearn/utils/utils.py:to_time_series_dataset")],
  observe=["get_params()", "deep comparison of caller objects before/after"])
p("H04", "A failed or interrupted call leaves a fitted estimator fully usable",
  "If a query on a fitted estimator raises at any point (rejected input, memory error, keyboard interrupt, failing worker), the estimator keeps its hyper-parameters and public fitted attributes, and every later query gives the same answers as if the failed call had never been made. If a fit raises because one of the operations it calls fails, the hyper-parameters are unchanged and the estimator can be fitted again normally.",
  ["fault_sequences", "crash_points", "histories"],
  "Every point of a query at which an exception can arise, every fault kind (bad data, MemoryError, KeyboardInterrupt, worker failure), followed by any later queries or fit.",
  "Tests check that an exception is raised, not that the object survives it; there are as many failure points as executed lines.",
  ["tslearn/neighbors/neighbors.py", "tslearn/bases/bases.py", "tslearn/neural_network/neural_network.py", "tslearn/clustering", "tslearn/svm/svm.py", "tslearn/shapelets/shapelets.py", "tslearn/piecewise/piecewise.py", "tslearn/forecasting/_arima.py", "tslearn/early_classification/early_classification.py"],
  [("temporary overrides are scoped or made on a private copy", "tslearn/bases/bases.py:_patch_attribute, tslearn/neighbors/neighbors.py")],
  observe=["exceptions", "get_params()", "probe queries after the fault"])
p("H05", "A fixed random_state makes results reproducible and leaves global RNGs alone",
  "With an integer random_state, every randomised estimator and function (k-means, kernel k-means, k-shape, SVMs, kernel bandwidth estimators, random-walk generators, early classifier, MLPs, DBA) gives bit-identical results regardless of the state of the global NumPy generator, of what ran before in the process, and of object identity or hash order; it neither reads nor advances the global NumPy generator. Estimators without randomness (VARIMA, AutoVARIMA, DBSCAN, nearest neighbours, SAX) likewise give identical results in every run.",
  ["histories", "configurations"],
  "All prior histories of the process, global RNG states and object-address/hash orders.",
  "Tests seed the global generator for the whole session, so a dependence on it or on iteration order of a hash-based collection is invisible.",
  ["tslearn/clustering", "tslearn/generators/generators.py", "tslearn/metrics/_gak.py", "tslearn/metrics/softdtw_variants.py", "tslearn/forecasting/_arima.py", "tslearn/early_classification/early_classification.py", "tslearn/svm/svm.py", "tslearn/barycenters/dba.py"],
  [("check_random_state used for every draw", "tslearn/clustering/*, tslearn/generators, tslearn/metrics/_gak.py"),
   ("deterministic order of candidate models", "tslearn/forecasting/_arima.py:AutoVARIMA")],
  observe=["results under different RNG states/process histories", "numpy.random.get_state() before/after"])
p("H06", "Incremental training of MLPs follows the history of successful calls",
  "After any history of fit, partial_fit, warm-started fits, hyper-parameter changes, queries, rejected calls, pickling and copying, a TimeSeriesMLPClassifier or TimeSeriesMLPRegressor has the weights, iteration and sample counters and answers of a scikit-learn MLP trained on the flattened series by the successful training calls alone; n_features_in_ stays the number of features of the series. Training on series of another shape than the model's is refused unless it is a cold fit. A rejected call leaves the model unchanged, and a first training call that is rejected does not bind the estimator to the shape of its series.",
  ["histories", "fault_sequences", "inputs"],
  "All sequences of successful, rejected and failing training calls, queries and copies over an estimator object.",
  "Tests call partial_fit once or twice on one dataset and never with warm_start or after a rejected call.",
  ["tslearn/neural_network/neural_network.py", "tslearn/bases/bases.py"],
  [("the model's shape is recorded by successful training only", "tslearn/neural_network/neural_network.py:fit, partial_fit"),
   ("n_features_in_ is patched for the duration of an incremental call", "tslearn/bases/bases.py:_patch_attribute")],
  observe=["coefs_, intercepts_, n_iter_, t_, n_features_in_", "query results", "exceptions"])
# ------------------------------------------------------------------ durability of models
p("D01", "A saved model survives restart and answers exactly like the original",
  "For every serializable estimator and supported format, once to_hdf5, to_json or to_pickle returns, a new process loading that path gets a model of the same class with equal hyper-parameters and model parameters that gives the same answers as the saved one, and that can be saved and loaded again. This holds along any history of fits, refits and saves to the same or other paths (JSON and pickle: the last acknowledged save wins; HDF5: an existing file is never overwritten), and saving does not alter the model.",
  ["histories", "crash_points", "configurations"],
  "All histories of fit/save/load/restart, all estimators, hyper-parameter settings and formats.",
  "Tests save one configuration per estimator and load it in the same process once.",
  ["tslearn/bases/bases.py", "tslearn/hdftools/hdftools.py", "tslearn/neighbors/neighbors.py", "tslearn/clustering", "tslearn/piecewise/piecewise.py", "tslearn/shapelets/shapelets.py", "tslearn/preprocessing/preprocessing.py", "tslearn/forecasting/_arima.py", "tslearn/matrix_profile/matrix_profile.py"],
  [("dict of hyper- and model parameters per format", "tslearn/bases/bases.py:BaseModelPackage"), ("recursive dict storage", "tslearn/hdftools/hdftools.py")],
  observe=["loaded model vs. reference answers recorded before the crash"])
p("D02", "Saving is never acknowledged unless the file is complete",
  "Whatever I/O error strikes while a model is saved (full disk, I/O error, short write, failing close, at any system call), the save call either raises or has left a file that loads into an equal model; it never returns normally leaving an incomplete file. A save that failed can be retried on the same path once the fault is gone and then succeeds.",
  ["fault_sequences", "crash_points"],
  "Every system call of a save, every error kind and short-write length, all formats and estimators.",
  "No test injects I/O errors.",
  ["tslearn/bases/bases.py", "tslearn/hdftools/hdftools.py"],
  [("files written and closed inside the call, errors propagate", "tslearn/bases/bases.py:to_json/to_pickle, tslearn/hdftools/hdftools.py:save_dict")],
  observe=["return/raise of the save", "file contents as seen by a later load"])
p("D03", "A torn model file is rejected, never loaded as a different model",
  "If the process dies at any point of a save, or a read error or truncation hits a model file, then loading it either raises or yields a model equal to one that was completely passed to a save on that path; it never yields a model with missing or mixed parameters. No file handle to a model file remains open after a save or load call returns or raises.",
  ["crash_points", "fault_sequences"],
  "Every crash point of a save (also over an existing file), every truncation length, every failing read during load.",
  "Tests only load intact files.",
  ["tslearn/bases/bases.py", "tslearn/hdftools/hdftools.py"],
  [("self-delimiting formats parsed completely before the model is built", "tslearn/bases/bases.py:from_json/from_pickle/from_hdf5")],
  observe=["exception or loaded model", "open descriptors"])
p("D04", "Text export of datasets is lossless and its failures are reported",
  "A dataset written with save_time_series_txt and read back with load_time_series_txt has exactly the same series lengths and values (NaN padding aside), for any shapes and magnitudes; if an I/O error hits the write at any point the call raises rather than reporting success, and if it hits the read the call raises rather than returning fewer or different series.",
  ["fault_sequences", "crash_points", "inputs"],
  "Every system call of the write and the read, every error kind, all finite datasets.",
  "One small file is written and read once in a doctest.",
  ["tslearn/utils/utils.py"],
  [("with-scoped file, repr-precision formatting", "tslearn/utils/utils.py:save_time_series_txt, load_time_series_txt")],
  observe=["return/raise", "re-read dataset"])
# ------------------------------------------------------------------ datasets
p("N01", "The dataset cache never serves incomplete or altered data",
  "After any history of dataset loads under network faults, I/O errors and process crashes at arbitrary points, load_dataset returns either exactly the published train and test sets or the documented failure value, never truncated, mixed or partial data; the lists of datasets are complete or unavailable, never cut short. Once a load has succeeded with caching on, later loads (also by new loader objects) return the same data without network access as long as nobody removes the cache.",
  ["crash_points", "fault_sequences", "histories"],
  "All sequences of loads, crashes at any file-system operation, network faults at any byte, and restarts.",
  "Dataset tests need the real network and are skipped; none crash or fault a download.",
  ["tslearn/datasets/datasets.py", "tslearn/datasets/ucr_uea.py"],
  [("extraction is made visible atomically", "tslearn/datasets/datasets.py:extract_from_zip_url"), ("presence of TRAIN and TEST files means cached", "tslearn/datasets/ucr_uea.py:_has_files")],
  state=[("cache directory", "<root>/UCR_UEA/<dataset>/<dataset>_{TRAIN,TEST}.<ext>", "disk")],
  observe=["return of load_dataset", "requests seen by the simulated server"])
p("N02", "Failing downloads give the documented fallback, never a crash",
  "When a dataset cannot be fetched or extracted (no network, DNS failure, HTTP error, timeout, reset, truncated or corrupt archive, missing dataset), load_dataset returns four None values and emits a RuntimeWarning, extract_from_zip_url returns None with a RuntimeWarning, and cache_all continues with the other datasets. Constructing a loader never fails because of the network, and locally available features (cached datasets, their listing, baseline accuracies) keep working offline.",
  ["fault_sequences", "histories"],
  "All network fault kinds at any request and byte position, in any order, from any cache state.",
  "There is no network in the tests and no simulated failure.",
  ["tslearn/datasets/datasets.py", "tslearn/datasets/ucr_uea.py"],
  [("errors turned into warnings plus None results", "tslearn/datasets/datasets.py:extract_from_zip_url, tslearn/datasets/ucr_uea.py:load_dataset, cache_all, __init__")],
  observe=["return values", "warnings", "exceptions"])
p("N03", "Loading recovers by itself once faults stop and leaves nothing behind",
  "From any cache state reachable through failed or crashed loads, one load_dataset call made when network and disk work again returns the complete dataset, using no more than one archive download. Failed loads that were not killed leave no temporary files behind, a dataset is listed by list_cached_datasets only if it can be loaded offline, and use_cache=False always fetches fresh data.",
  ["crash_points", "fault_sequences", "histories"],
  "All states reachable through faults and crashes, followed by a fault-free call.",
  "Recovery from a broken cache directory is never exercised.",
  ["tslearn/datasets/datasets.py", "tslearn/datasets/ucr_uea.py"],
  [("target cleared before download, temporary directory removed", "tslearn/datasets/ucr_uea.py:load_dataset, tslearn/datasets/datasets.py:extract_from_zip_url")],
  observe=["load result after heal", "temp dir contents", "list_cached_datasets"])
p("N04", "Loaders sharing a cache directory do not corrupt each other",
  "When several loaders in different threads (or processes) use one cache directory with caching on, every load_dataset call returns the exact published data or the documented failure value under every interleaving (success when no fault occurs and nobody replaces the dataset meanwhile), dataset lists are never seen half written, and after all of them finish the cache serves the exact data.",
  ["schedules", "fault_sequences"],
  "All interleavings of 2 or 3 loaders fetching the same or different datasets, with network faults.",
  "No test runs two loaders at once.",
  ["tslearn/datasets/datasets.py", "tslearn/datasets/ucr_uea.py"],
  [("private temporary directory per download, atomic publication", "tslearn/datasets/datasets.py:extract_from_zip_url")],
  observe=["per-call results", "final cache contents"])
# ------------------------------------------------------------------ streaming
p("E01", "Streaming early classification equals offline early prediction",
  "However an incoming dataset is cut into chunks of timestamps (empty chunks and polls included), after each chunk the early-prediction generators yield exactly the predictions (or probabilities) and delays that early_predict (early_predict_proba) returns for the timestamps received so far; predictions are NaN before min_t timestamps. The first prefix for which a zero delay is announced is where predict_class_and_earliness stops, with the same class.",
  ["schedules", "histories", "inputs"],
  "All chunkings of a stream, all batch sizes, models and (variable-length) series.",
  "One or two fixed chunkings of one series are tested.",
  ["tslearn/early_classification/early_classification.py"],
  [("accumulate received timestamps, predict on the prefix", "tslearn/early_classification/early_classification.py:_generate_early_predictions")],
  state=[("accumulated prefix", "timestamps received so far", "generator frame")],
  observe=["values yielded by send()", "early_predict on prefixes"])
p("E02", "A stream survives bad chunks and is isolated from other streams",
  "A chunk whose shape does not fit (wrong number of series or of features, wrong rank) is reported by a RuntimeWarning and ignored: the generator re-yields its current state and continues correctly with later chunks. Streams opened on one model never influence each other, the model, or offline queries, whatever the interleaving of chunks, polls, bad chunks and closed streams; chunks are not modified, and later changes of the caller's chunk buffer have no effect.",
  ["fault_sequences", "schedules", "histories"],
  "All sequences of good, bad, duplicated-poll chunks over several streams interleaved or driven from several threads.",
  "A single bad chunk on a single stream is tested.",
  ["tslearn/early_classification/early_classification.py"],
  [("invalid chunks rejected before the buffer changes; per-generator buffer", "tslearn/early_classification/early_classification.py:_generate_early_predictions")],
  observe=["yielded values", "warnings", "model attributes"])
# ------------------------------------------------------------------ randomised iterative search
p("K01", "Clustering results are self-consistent whatever the random choices",
  "Whenever k-means, k-shape or kernel k-means fits successfully, then for every outcome of its random choices and every sequence of empty-cluster restarts: every cluster is non-empty, labels_ are the assignments predict gives for the training data and the nearest-centre (nearest-kernel-mean) ones with respect to the returned model, inertia_ is the inertia of those labels, n_iter_ is between 1 and max_iter, and cluster_centers_ has n_clusters finite centres. (KShape: for z-normalised series, as it asks for; kernel k-means, whose model is the labels themselves: when it stopped before max_iter.)",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "All draws of the random generator, all patterns of empty-cluster failures among the attempts, all n_init/max_iter/tol/metric settings.",
  "Tests fix one seed, on which restarts hardly ever happen.",
  ["tslearn/clustering/kmeans.py", "tslearn/clustering/kshape.py", "tslearn/clustering/utils.py"],
  [("best attempt kept, final assignment recomputed", "tslearn/clustering/utils.py:_post_fit, kmeans.py:fit, kshape.py:fit")],
  observe=["public fitted attributes", "predict on training data"])
p("K02", "Multi-start clustering keeps the best start and always terminates",
  "With n_init starts, k-means, k-shape and kernel k-means return the best (lowest inertia) of the starts that succeeded, restart after an empty-cluster failure, and give up after a bounded number of attempts (at most max(n_init, 10)) instead of looping or failing with an internal error. As soon as one start succeeded, a start that fails leaves no trace in the returned model.",
  ["fault_sequences", "histories", "schedules"],
  "All success/failure patterns of the individual starts and all orders of their inertias.",
  "Needs chosen failures of chosen starts; tests have one natural success.",
  ["tslearn/clustering/kmeans.py", "tslearn/clustering/kshape.py", "tslearn/clustering/utils.py"],
  [("attempt loop with EmptyClusterError handling", "tslearn/clustering/kmeans.py:fit, tslearn/clustering/kshape.py:fit")],
  observe=["inertia_ vs. inertias of the individual starts", "number of attempts"])
# ------------------------------------------------------------------ pure functions (not simulation targets)
pure = [
 ("P01", "DTW, soft-DTW, Frechet, LCSS and CTW values solve their optimisation problems",
  "Each elastic measure returns the optimum of its documented definition over all admissible alignments, is symmetric where documented, is zero on identical series where documented, and respects global constraints; LB_Keogh lower-bounds DTW.",
  ["tslearn/metrics"], "dynamic programming recursions"),
 ("P02", "Alignment paths are valid and realise the returned value",
  "Every *_path function returns a monotone, contiguous path from start to end (or documented end points) whose cost under the definition equals the returned value.",
  ["tslearn/metrics"], "back-tracking"),
 ("P03", "Preprocessing transforms satisfy their postconditions",
  "Scalers reach the requested mean/std or range per series, resampling gives the requested length, imputing fills only missing values, and synchronisation aligns series, on all datasets.",
  ["tslearn/preprocessing"], "per-series transforms"),
 ("P04", "PAA, SAX and 1d-SAX representations and distances match their definitions",
  "Symbols, segment means, reconstructions and the lower-bounding distance follow the definitions for all inputs and parameters.",
  ["tslearn/piecewise", "tslearn/metrics/cysax.py"], "segment means and breakpoints"),
 ("P05", "NumPy and PyTorch backends agree",
  "Every metric gives the same value on both backends, and autograd gradients equal the analytic ones.",
  ["tslearn/backend", "tslearn/metrics"], "backend facade"),
 ("P06", "Matrix profile, shapelet distances and forecasts follow their definitions",
  "Matrix profiles equal the nearest non-trivial match distances, shapelet features the minimal sliding distances, and VARIMA forecasts the fitted recursion.",
  ["tslearn/matrix_profile", "tslearn/shapelets", "tslearn/forecasting"], "definitions"),
 ("P07", "Dataset conversions to and from other toolkits are lossless",
  "Converting a dataset to another supported representation and back gives the same series.",
  ["tslearn/utils/cast.py", "tslearn/utils/utils.py"], "conversion functions"),
]
for id, title, st, files, mech in pure:
    p(id, title, st, ["inputs"], "All admissible inputs and parameters; no schedule, fault, clock or history is involved.",
      "A quantifier over inputs that a handful of examples cannot settle (left to input-generation or proof techniques).",
      files, [(mech, files[0])])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
