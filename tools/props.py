#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
SCHED = "Every thread runs as a simulated thread; a seeded scheduler preempts at instrumented memory accesses, allocations, BLAS/LAPACK calls and OpenMP/MPI/telegram calls. Evidence over the explored seeds, not a proof; sequentially consistent memory is assumed."
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note=SCHED, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, tech, note))


G = "src/gwmodelpp/"
ALLREG = [G + f for f in ("GWRBasic.cpp", "GWRRobust.cpp", "GWRMultiscale.cpp", "GWRGeneralized.cpp", "GWRLocalCollinearity.cpp", "GTWR.cpp", "GWDR.cpp")]

prop("C01", "A multi-threaded fit gives the serial result",
     "For every regression model that offers multi-threading, fitting with any number of threads gives the same coefficients, standard errors, fitted diagnostics, hat-matrix quantities, selected bandwidths and selected variables as fitting serially, up to rounding. If the serial fit raises an error so does the multi-threaded one, and it never aborts the process. This holds however the threads are scheduled and however many threads the runtime actually grants.",
     ["schedules", "inputs", "configurations"], "all data sets, kernels, distances, bandwidth kinds, selection settings, thread counts, granted team sizes and thread interleavings",
     "The tests fit one data set per model with one thread count under whatever schedule the machine happens to produce; a lost update or a thread-count dependent partition shows up only in particular interleavings or team sizes.",
     ALLREG, [("OpenMP fit cores", "fitCoreOmp / fitOmp / regressionHatmatrixOmp and siblings of each model"), ("per-thread accumulators merged after the loop", "the *_all matrices indexed by thread number"), ("bandwidth and variable selection driving the parallel criteria", G + "BandwidthSelector.cpp, " + G + "VariableForwardSelector.cpp")],
     TECH + "simulated OpenMP teams under a seeded scheduler, serial fit as reference model", state=[("coefficients, hat trace, diagonal of the hat matrix", "shared between the threads of a parallel loop")],
     observe=["fit() return value", "betas, betasSE, sHat, qDiag, s, c, diagnostic, bandwidth and selection lists"])
prop("C02", "Multi-threaded prediction and local summaries give the serial result",
     "Predicting coefficients at new locations, computing local summary statistics and running discriminant analysis with any number of threads give the same outputs as the serial computation, up to rounding. If the serial computation raises an error so does the multi-threaded one, and it never aborts the process. This holds for every thread schedule and granted team size.",
     ["schedules", "inputs", "configurations"], "all data sets, prediction locations (fewer or more than threads), statistics modes, thread counts and interleavings",
     "Only a few models have a multi-threaded prediction test and each uses one schedule, one thread count and one set of locations.",
     [G + f for f in ("GWRBasic.cpp", "GWRRobust.cpp", "GWRLocalCollinearity.cpp", "GTWR.cpp", "GWSS.cpp", "GWDA.cpp")],
     [("OpenMP prediction cores", "predictOmp of each model"), ("OpenMP local statistics", G + "GWSS.cpp: GWAverageOmp, GWCorrelationOmp"), ("OpenMP discriminant analysis", G + "GWDA.cpp: the *Omp functions")],
     TECH + "simulated OpenMP teams under a seeded scheduler, serial run as reference model", observe=["predict() return value", "local means, variances, correlations, classification, probabilities, entropy"])
prop("C03", "Multi-threaded selection criteria equal the serial ones",
     "The score that bandwidth selection or variable selection assigns to a candidate (cross-validation or AIC) is the same, up to rounding, whether it is computed serially or with any number of threads. A candidate whose local model cannot be solved is rejected in both cases. This holds for every thread schedule, granted team size and number of evaluations made before it.",
     ["schedules", "inputs", "configurations"], "all candidates, criteria, data sets, thread counts, team sizes and interleavings",
     "Tests compare only the final selected bandwidth of one data set; a criterion that drops the contribution of some threads still picks the same bandwidth there.",
     ALLREG, [("parallel criteria", "bandwidthSizeCriterion*Omp, indepVarsSelectionCriterionOmp of each model"), ("per-thread partial sums", "vec(mOmpThreadNum) accumulators summed after the loop")],
     TECH + "simulated OpenMP teams under a seeded scheduler, serial criterion as reference model", observe=["criterion value and status returned through the selection interfaces", "selected bandwidth list"])
prop("C04", "Distributed basic GWR gives the serial result on every rank",
     "Running basic GWR (fit, fit and predict, or a selection criterion) over any number of cooperating processes gives on every process the same coefficients, fitted diagnostics, selected bandwidth and selected variables as a serial run, up to rounding, also when only the first process was given the data. This holds for every number of processes including more than the samples can fill, with or without threads inside each process, and for every message delay, buffering and reduction order the message-passing standard allows.",
     ["schedules", "inputs", "configurations", "fault_sequences"], "all data sets, rank counts, uneven and empty partitions, message timings, buffering choices, reduction orders and inner thread interleavings",
     "The MPI tests run one data set with a fixed small number of ranks over shared memory on one machine, so messages are always eagerly buffered, on time and in one order.",
     [G + "GWRBasic.cpp", "include/gwmodelpp/GWRBasic.h", "include/gwmodelpp/utils/armampi.h"],
     [("partition of samples over ranks", G + "GWRBasic.cpp: workRange"), ("broadcast of data and merge of results", G + "GWRBasic.cpp: fitMpi and the *Mpi criteria"), ("rank 0 drives selection, others mirror it", G + "BandwidthSelector.cpp, VariableForwardSelector.cpp")],
     TECH + "simulated MPI ranks and network (delay, rendezvous, reordering), serial run as reference model", observe=["per-rank fit and predict results"])
prop("C05", "Distributed multiscale GWR gives the serial result on every rank",
     "Running multiscale GWR over any number of cooperating processes gives on every process the same coefficients (of either sign), bandwidths and diagnostics as a serial run, up to rounding. This holds for every number of processes including ones left without samples, with or without threads inside each process, and for every message delay, buffering and reduction order the message-passing standard allows.",
     ["schedules", "inputs", "configurations", "fault_sequences"], "all data sets, bandwidth initialisation kinds, back-fitting lengths, rank counts, partitions, message timings and reduction orders",
     "The single MPI test uses one data set whose coefficients and partition hide merge errors, on one rank count and one message order.",
     [G + "GWRMultiscale.cpp", "include/gwmodelpp/GWRMultiscale.h", G + "utils/armampi.cpp"],
     [("distributed back-fitting and hat matrix", G + "GWRMultiscale.cpp: backfitting, fitVarMpi"), ("distributed criteria", G + "GWRMultiscale.cpp: bandwidthSizeCriterionVarCVMpi, bandwidthSizeCriterionVarAICMpi"), ("distributed product", "mat_mul_mpi")],
     TECH + "simulated MPI ranks and network, serial run as reference model", observe=["per-rank fit results"])
prop("C06", "The distributed matrix product equals the product",
     "When every process contributes its block of rows of two matrices, the distributed product leaves in each process exactly its block of rows of the product, for every number of processes and every distribution of the rows including processes with none. It does not modify its inputs, can be repeated, and does not depend on message timing or buffering.",
     ["schedules", "inputs", "configurations", "fault_sequences"], "all row distributions, shapes, rank counts, message delays and buffering choices",
     "The test multiplies two fixed-shape matrices on a fixed rank count with eager in-order delivery.",
     [G + "utils/armampi.cpp", "include/gwmodelpp/utils/armampi.h"], [("exchange of blocks", "mat_mul_mpi")],
     TECH + "simulated MPI ranks and network, dense product as reference model", observe=["product block of each rank", "inputs after the call"])
prop("C07", "Distributed runs always finish, agree on the outcome and leave no message behind",
     "A distributed run of basic or multiscale GWR ends on every process: no process waits forever, whatever the message delays and however little the network buffers. Either all processes return or all raise, also when a local model cannot be solved on just one of them, and when any of them is asked to stop all of them end as terminated, after a bounded amount of further work. No message is left unreceived afterwards.",
     ["schedules", "inputs", "configurations", "fault_sequences"], "all rank counts, partitions, selection settings, positions of an unsolvable local model, cancelled processes and moments of cancellation, message delays and buffering choices",
     "Deadlocks that depend on missing buffering or on an error on one rank never occur on the shared-memory transport with the one well-behaved data set tests use.",
     [G + "GWRBasic.cpp", G + "GWRMultiscale.cpp", G + "utils/armampi.cpp", G + "BandwidthSelector.cpp", G + "VariableForwardSelector.cpp"],
     [("matching sequence of collectives on every rank", "the *Mpi functions"), ("agreement about failure", "status reductions in fitMpi and the criteria")],
     TECH + "simulated MPI ranks and network; deadlock, leftover-message and agreement checks", observe=["return or raise per rank", "message queues at the end"])

NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None)
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(H, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(H, "tools", "props_more.py")) else None

na("C20", "Kernel weights follow their definition",
   "Every spatial weight equals the chosen kernel evaluated at the distance and bandwidth, lies in [0,1], is 1 at distance zero, never increases with distance, and is zero beyond the bandwidth for compact kernels. An adaptive bandwidth is the distance to that many nearest neighbours, extrapolated when it exceeds the number of samples.",
   ["inputs", "configurations"], "all distances, bandwidths and kernels", "Tests sample a handful of values.",
   [G + "spatialweight/BandwidthWeight.cpp", "include/gwmodelpp/spatialweight/BandwidthWeight.h"], [("kernel functions", "BandwidthWeight")],
   "A pure function of its arguments: no threads, messages, time, I/O or resources for a simulator to control, so no schedule or fault can change the answer. (C09 and C17 check the weights that models and copied objects use, but poles of the definition are a matter of input only.)")
na("C21", "Distances are correct for every metric",
   "Every distance equals the chosen metric between the two locations, is non-negative, symmetric and zero for identical locations; geographic distance handles poles and the date line.",
   ["inputs", "configurations"], "all locations and metrics", "Tests sample a handful of pairs.",
   [G + "spatialweight/CRSDistance.cpp", G + "spatialweight/MinkwoskiDistance.cpp", G + "spatialweight/OneDimDistance.cpp", G + "spatialweight/CRSSTDistance.cpp"], [("metric functions", "the Distance classes")],
   "A pure function of its arguments: nothing nondeterministic or faulty to simulate.")

open(os.path.join(H, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p, _, _ in P))
fixes = []
json.dump({"version": 1, "setup_cmd": "python3 check.py --build",
           "hooks": {"guard": "none", "enable": "No change to /repo is needed: the simulator compiles /repo's sources with -fsanitize=thread instrumentation hooks and its own OpenMP, MPI, allocator and lock implementations, all outside /repo.", "source_commits": []},
           "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"], "technique": t, "level": "exploration", "level_note": n} for p, t, n in P if t],
           "not_applicable": NA, "notes": "See DESIGN.md. Generated with properties.jsonl by tools/props.py."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
