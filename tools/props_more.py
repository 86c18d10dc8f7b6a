# executed by props.py
ALLM = ALLREG + [G + f for f in ("GWRScalable.cpp", "GWSS.cpp", "GWPCA.cpp")]
prop("C08", "A requested cancellation is honoured promptly and cleanly",
     "When the telegram answers that the job should stop, at whatever stage of fitting, selection, diagnosis or prediction, serial or multi-threaded, the job ends without raising, the model's status is Terminated, and only a bounded amount of further work is done: each thread finishes at most the local model it is on, and at most the sweeps that never ask are completed. A job that is not asked to stop ends with status Success.",
     ["fault_sequences", "schedules", "inputs", "configurations"], "all models, all points of a job at which the request can arrive (after any number of polls or any amount of work), all thread counts and interleavings",
     "The tests cancel a few fits at named stages in one serial run; a stage that never asks, or a thread that goes on after the answer, is invisible there.",
     ALLM, [("stop polls", "GWM_LOG_STOP_BREAK / GWM_LOG_STOP_CONTINUE / GWM_LOG_STOP_RETURN in every loop"), ("status of the algorithm", "include/gwmodelpp/Algorithm.h"), ("selection loops", G + "BandwidthSelector.cpp, " + G + "VariableForwardSelector.cpp"), ("telegram wrapper around the initial model", G + "GWRMultiscale.cpp")],
     TECH + "stop requests injected at seeded polls or amounts of work into simulated threads; bounded-progress check", observe=["status()", "number of local models, factorisations and progress reports after the request"])
prop("C11", "Progress reports are well formed",
     "Whatever the schedule, every progress report satisfies 0 < current <= total (two half steps of scalable GWR may start at 0) and every progress percentage lies in [0,1]. Serially the steps of a stage are reported in order, and in a job that completes every step of a stage is reported equally often, with threads as well. A telegram replaced by another or left by a destroyed model is destroyed exactly once and never called again.",
     ["schedules", "inputs", "configurations"], "all models, thread counts, interleavings, cancellations and telegram replacements",
     "The tests use a telegram that prints, and never look at what is reported.",
     ALLM + [G + "GWDA.cpp"], [("progress calls", "GWM_LOG_PROGRESS in every loop"), ("ownership of the telegram", "include/gwmodelpp/Algorithm.h: setTelegram")],
     TECH + "recording telegram under simulated threads; checks over the recorded history", observe=["ITelegram::progress, print, stop calls in order"])
prop("C12", "What an object did before does not change what it does next",
     "A fit, prediction, local summary, discriminant analysis or criterion evaluation gives the same result on an object that has already run other jobs (fits, predictions, criteria, serial or multi-threaded, on this or other data, cancelled or failed) as on a fresh object with the same settings, once inputs a job documents to change (selected bandwidth, selected variables) are set again. Results never depend on memory that was not initialised.",
     ["histories", "fault_sequences", "schedules", "inputs", "configurations"], "all sequences of jobs, cancellations and failures before the job, all models, thread counts and interleavings",
     "Each test makes one object and runs one job on it.",
     ALLM + [G + "GWDA.cpp"], [("state kept between jobs", "members of each model: status, coefficients, traces, centred predictors, selection lists"), ("cleanup on error and cancellation", "fit/run/predict of each model")],
     TECH + "seeded histories of jobs with injected cancellations and failures; fresh serial object as reference model", observe=["all results of the last job"])
prop("C10", "A local model that cannot be solved is reported and does no lasting harm",
     "When at one or more samples (or prediction locations) the local model cannot be solved, the fit or predict raises a std::exception, serially and with any number of threads, wherever in the sweep the sample lies and however many others fail at the same time; it never returns partial results as if they were complete and never ends the process. The object can then be given solvable data and produces the results of a fresh object.",
     ["fault_sequences", "schedules", "inputs", "configurations"], "all positions and numbers of unsolvable samples or locations, models, thread counts and interleavings",
     "No test fits data with an unsolvable local model, and only the right interleaving of a failing and a succeeding thread shows a lost failure.",
     ALLREG, [("try/catch in every local loop", "fitSerial, fitOmp, predictSerial, predictOmp of each model"), ("flag checked after the loop", "if (!success) throw except")],
     TECH + "unsolvable samples injected at seeded positions under simulated threads; outcome and later reuse checked against a fresh serial object", observe=["exceptions raised", "results of the next fit"])
prop("C13", "Selection returns the best candidate it evaluated, within bounds",
     "Bandwidth selection evaluates only candidates inside the configured or default range (whole numbers for adaptive bandwidths), and a completed search returns the best candidate it evaluated; variable selection evaluates the documented sequence of combinations and returns a solvable one by its threshold rule. If a criterion raises, cannot be solved, or reports cancellation at any evaluation, the selection ends without a crash or endless loop, an unsolvable candidate is never chosen over a solvable one, and a cancelled search leaves the original bandwidth. The joint search of one fixed bandwidth per dimension in density regression ends with bandwidths that score no worse than those it started from, or raises and leaves those. A cancelled or failed selection of the space-time ratio leaves the one configured.",
     ["fault_sequences", "histories", "inputs", "configurations", "schedules"], "all criterion values and shapes, all evaluations at which a criterion can fail, raise or stop, all bounds, all models with selection",
     "The tests select on one data set with default bounds and look at the number chosen; criteria never fail and are never cancelled at a seeded evaluation.",
     [G + "BandwidthSelector.cpp", G + "VariableForwardSelector.cpp"] + ALLREG, [("golden-section search", G + "BandwidthSelector.cpp"), ("forward selection", G + "VariableForwardSelector.cpp"), ("bounds and criteria of each model", "fit() of each model")],
     TECH + "scripted criteria with injected failures and stops drive the real selectors, and whole models are cancelled inside selection; every evaluation is recorded and checked", observe=["sequence of candidates evaluated", "selected bandwidth, variables and lists"])
prop("C14", "Independent models on concurrent threads do not interfere",
     "Two or three model objects of the same or different kinds, fitted or predicting at the same time on threads of the caller, each serial or multi-threaded, give each exactly the results and outcome they give alone, and cancelling one of them does not disturb the others. There is no hidden shared state.",
     ["schedules", "inputs", "configurations", "fault_sequences"], "all pairs and triples of models, all interleavings of their threads",
     "The tests never run two models at once; a static or global buffer would pass all of them.",
     ALLM + [G + "GWDA.cpp", G + "spatialweight/BandwidthWeight.cpp", G + "spatialweight/CRSDistance.cpp"], [("static tables and function tables", "static members in each model"), ("random matrices", "armadillo generators"), ("state in members only", "each model")],
     TECH + "several simulated caller threads with preemption at memory accesses; serial run of each alone as reference", observe=["all results of every model"])
prop("C15", "Running out of memory is reported and does no lasting harm",
     "When any single allocation, or every allocation from some point on, fails inside a fit, predict, local summary or discriminant analysis, serial or multi-threaded, the process is not ended: the job either completes with correct results or raises a std::exception, and afterwards the same object gives the results of a fresh one. It never returns normally with wrong numbers. A spatial weight whose copy or update fails keeps its old parts.",
     ["fault_sequences", "schedules", "configurations"], "all allocations of a job as the failing one, all models, thread counts and interleavings",
     "Allocations never fail in the tests.",
     ALLM + [G + "GWDA.cpp", G + "spatialweight/SpatialWeight.cpp"], [("exceptions inside parallel regions", "every #pragma omp loop"), ("two-step updates", "SpatialWeight setters and assignment"), ("cleanup", "fit() of each model")],
     TECH + "allocation failures injected at seeded ordinals into simulated threads; outcome and later reuse checked against a fresh serial object", observe=["exceptions, process end", "results of the failing and of the next job"], note="Only requests of 128 bytes or more fail inside the models, so that the library's short log texts and the runtime's own bookkeeping are not hit; spatial weights are tested with every request.")
prop("C16", "Memory is given back",
     "Any life of an object – creation, fits, selections, predictions, cancelled jobs, failed jobs, jobs out of memory, replacement of data and telegram, destruction – leaves no heap block behind, frees none twice and writes outside none, serially and with any number of threads.",
     ["histories", "fault_sequences", "schedules", "configurations"], "all sequences of jobs, failures and cancellations, all models and thread counts",
     "The tests do not measure memory, and leaks on cancelled or failed paths need the fault to happen.",
     ALLM + [G + "GWDA.cpp", G + "BandwidthSelector.cpp", G + "spatialweight/CRSSTDistance.cpp"], [("ownership of bandwidths made by a search", "BandwidthSelector::optimize and its callers"), ("clones of weights and distances", "SpatialWeight, CRSSTDistance"), ("global model", G + "GeneralizedLinearModel.cpp")],
     TECH + "seeded lives with faults on a deterministic arena with canaries; live blocks compared between repetitions of the same life", observe=["live heap blocks after each life", "heap corruption"])
prop("C09", "Results are what the method defines, however they are computed",
     "A completed basic GWR, space-time GWR or density-regression fit returns at every sample the weighted least-squares solution for the configured kernel, bandwidth and distance, with the standard errors, hat matrix, hat traces, residual sum of squares, AIC, AICc, effective degrees of freedom and R-squares that follow from it. Robust GWR returns the solution with the outliers its rule names left out or weighed down, generalized (Poisson, binomial) GWR the converged iteratively reweighted solution with its deviance-based diagnostics, multiscale GWR with given bandwidths the backfitted coefficients, local collinearity GWR the locally ridge-adjusted solution, scalable GWR the solution for its polynomial kernel at the scale and penalty it reports. A prediction of basic, robust, generalized, local collinearity or scalable GWR is the solution at the location. A bandwidth criterion is the AICc or leave-one-out cross-validation score of the candidate, a variable-selection criterion the AICc of the combination. Local summary statistics are the weighted moments, quantiles and correlations, local principal components the weighted components, and discriminant analysis classifies by the weighted group moments, with probabilities that sum to one and an entropy between zero and one. This holds serially, with any number of threads and, for basic and multiscale GWR, on every one of any number of processes, for every schedule and message order.",
     ["schedules", "inputs", "configurations"], "all data sets, kernels, distances, bandwidths, bandwidth kinds, thread counts, rank counts, interleavings and message timings",
     "The tests compare a few summary numbers of one data set per model, under one schedule, with tolerances up to 0.1; the differential properties cannot see an error that all the ways of computing share.",
     [G + f for f in ("GWRBasic.cpp", "GTWR.cpp", "GWDR.cpp", "GWRRobust.cpp", "GWRGeneralized.cpp", "GWRMultiscale.cpp", "GWRLocalCollinearity.cpp", "GWRScalable.cpp", "GWSS.cpp", "GWPCA.cpp", "GWDA.cpp", "GWRBase.cpp", "spatialweight/BandwidthWeight.cpp")], [("local least squares", "fitCore*, fitSerial, fitOmp, predict* of each model"), ("diagnostics", "CalcDiagnostic of each model"), ("criteria", "bandwidthSizeCriterion* of each model"), ("local statistics", G + "GWSS.cpp, " + G + "GWPCA.cpp")],
     TECH + "refinement of a small executable reference model (plain loops, own solver, own distances and kernels) by simulated teams and ranks under a seeded scheduler", observe=["all results of fit, predict, run and the selection criteria"])
prop("C17", "Spatial weights and distances behave as values",
     "A weight, distance or spatial weight copied, cloned, moved, assigned (also to itself, or to another object's part), replaced part by part or kept in a container always describes exactly what it was last given: the copy gives the same distances, extreme distances and kernel weights as the original and later changes of either do not show in the other. Objects without parts or points can be copied and moved too, and say that they are not usable. Refused points and failed allocations leave every object as it was or without points, and several threads can read and copy one object at the same time.",
     ["histories", "fault_sequences", "schedules", "inputs", "configurations"], "all sequences of operations on pools of objects, all allocations as the failing one, all interleavings of concurrent readers and copiers",
     "The tests build a spatial weight once and hand it over; copies of copies, self-assignment, moved-from objects, failing copies and concurrent copies do not occur.",
     ["include/gwmodelpp/spatialweight/SpatialWeight.h"] + [G + "spatialweight/" + f for f in ("SpatialWeight.cpp", "CRSDistance.cpp", "MinkwoskiDistance.cpp", "OneDimDistance.cpp", "CRSSTDistance.cpp", "BandwidthWeight.cpp")], [("ownership of the two parts", "SpatialWeight constructors, assignment and setters"), ("deep copies", "copy constructors and clone() of each distance and weight"), ("points", "makeParameter of each distance")],
     TECH + "seeded histories over pools of objects with injected allocation failures and simulated concurrent readers, checked after every step against a plain model", observe=["isValid, weight, distance, weightVector", "distance, maxDistance, minDistance, getters of every object after every step", "live heap blocks at the end"])
