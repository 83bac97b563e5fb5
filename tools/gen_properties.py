#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because long JSON lines are unreadable)."""
import json, os
COR, HDR, BND = "sacf/correlator/Correlator.cpp", "sacf/include/Correlator.h", "sacf/correlator/correlator_bindings.cpp"
DSC, DSB, PY, INI = "sacf/datastructure/DataStructure.cpp", "sacf/datastructure/datastructure_bindings.cpp", "sacf/sacf.py", "sacf/__init__.py"
OUT = []


def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    OUT.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                "anchors": {"files": files,
                            "state": state or [],
                            "mechanism": [{"name": n, "where": w} for n, w in mech],
                            "observe_at": observe or ["SACF(...).autocorrelation(...)"],
                            "hook_needed": None}})


P("C01", "Default correlations follow the selective estimator's definition",
  "For strictly increasing finite times t and finite data x with mean m and N = sum (x_i-m)^2 > 0, the default autocorrelation at every returned lag k equals (1/N) * sum of w(d_i)*(x_i-m)*(x_s(i)-m) over exactly the points i with t_i+k <= t_last, where s(i) is the sample nearest in time to t_i+k (the later one on a tie), d_i its distance from t_i+k, and w(d) = 1/(1+d/alpha); up to rounding. "
  "Points shifted before the first sample still count (nearest sample: the first), a lag without points gives 0, and data of any offset or scale keep double precision.",
  ["inputs", "configurations"],
  "all sampling patterns (regular, gappy, clustered, multi-scale), series lengths, data offsets/scales, lag windows/resolutions and alphas",
  "The suite compares correlations for one 5-point, evenly spaced, zero-mean series whose first and last values are 0; no uneven sampling, tie, boundary pair, weight below 1 or offset is ever evaluated.",
  [COR, HDR, PY], [("nearest-neighbour selection", COR + ": naturalSelectionFunctionIdx"), ("distances and weights", COR + ": deltaT, getFractionWeights"), ("weighted sum and normalisation", COR + ": findCorrelation, Correlator::Correlator (N)")])
P("C02", "Returned lags are exactly the requested grid",
  "The returned lags start at min_lag, advance by lag_resolution and stop at the last one not above max_lag; lag 0 is inserted exactly where the grid steps from a negative to a positive lag without hitting 0, and nowhere else. "
  "Lags strictly increase and lie within [min_lag, max_lag], there are as many correlations per series as lags, and min_lag > max_lag gives no lags; this holds for every selection and weight function, for options that are 0, and however wide or fine the grid is compared with the default one.",
  ["inputs", "configurations"],
  "all combinations of min_lag, max_lag, lag_resolution (given or defaulted, any sign, coarser or finer than the sampling, beyond the series) on every computation route",
  "Tests use three grids with small integer or half-integer steps, never finer or wider than the default grid; the unmodified code corrupted the heap there.",
  [COR, PY], [("C++ lag loop", COR + ": calculateStandardCorrelation, addCorrelationData, cleanCorrelationData"), ("Python lag generator", PY + ": find_correlation.lag_generator"), ("option application", PY + ": set_up_correlation")])
P("C03", "Weight function options apply the weights they name",
  "With natural selection, weight_function 'fractional', 'fractional_squared' and 'gaussian' give the estimator with w(d) = 1/(1+d/alpha), 1/(1+(d/alpha)^2) and exp(-d^2/(2 alpha^2)) respectively, for the alpha in force, at every lag and for every series. "
  "A selection or weight name that is not documented raises an error instead of computing something else.",
  ["inputs", "configurations"], "all irregular series (so that d > 0 matters), alphas, lag windows and function names",
  "The tests for gaussian and fractional_squared use an evenly sampled series on which every distance is 0 or multiplied by 0, so all weight functions give identical results there.",
  [COR, PY], [("weight functions", COR + ": *WeightFunction, get*Weights"), ("dispatch by name", PY + ": SELECTION_FUNCTIONS, WEIGHT_FUNCTIONS, find_correlation")])
P("C04", "Fast selection pairs by index from the first nearest sample",
  "With selection_function='fast', lag k pairs point 0 with the sample nearest to t_0+k (the later on a tie), at index j, and point i with sample j+i, for every i with t_i+k <= t_last and j+i inside the series; each pair is weighted by the distance between t_i+k and the sample it is paired with, whatever weight function is chosen. "
  "On evenly sampled series it therefore gives the natural selection's correlations at lags 0, dt, 2dt, ..., and it never raises for a lag inside or outside the series.",
  ["inputs", "configurations"], "all series (even and uneven), lag windows, resolutions, alphas and weight functions",
  "The only test of it asserts that its result differs from the natural one.",
  [COR, PY], [("index-based selection", COR + ": fastSelectionFunctionIdx"), ("python route", PY + ": find_correlation")])
P("C05", "The compiled and step-by-step routes agree",
  "Running the natural selection and fractional weights step by step through the public pieces gives the same lags and the same correlations as the compiled default route, for every series and every option setting, including empty, single-lag and zero-inserting grids and multi-series data.",
  ["inputs", "configurations"], "all series and option combinations, both routes on equal correlators",
  "No test runs both routes on the same weight function; the two lag loops are separate code in two languages.",
  [COR, PY, BND], [("compiled route", COR + ": calculateStandardCorrelation"), ("step route", PY + ": find_correlation")], ["SACF.find_correlation(corr, 'natural', 'fractional') against Correlator.calculateStandardCorrelation()"])
P("C06", "Lag 0 is 1 and correlations ignore offset and scale of the data",
  "For every non-constant series the correlation at lag exactly 0 is 1 up to rounding, under both selection functions and every weight function and alpha. "
  "Replacing the values x by a*x+b (a not 0, either sign) leaves every lag and, up to rounding, every correlation unchanged.",
  ["inputs", "configurations"], "all series, all a and b, all option combinations; offsets far larger than the variation included",
  "Tests use data in {-1,0,1} only; the unmodified code lost precision (normalisation in float) for offsets above 2^24 and returned 0 for values beyond float range.",
  [COR, DSC], [("mean subtraction", DSC + ": setDataMean, calcNormData"), ("normalisation", COR + ": Correlator::Correlator (N), findCorrelation")])
P("C07", "Correlations depend on time differences only, with time-unit scaling",
  "Shifting all times by a constant (times staying exactly representable) changes neither lags nor correlations. "
  "Multiplying all times by c > 0 (and, where given, min_lag, max_lag, lag_resolution and alpha with them) multiplies the lags by c and leaves the correlations unchanged, up to rounding.",
  ["inputs", "configurations"], "all series, shifts (including large Julian-date-like offsets and negative times) and unit scalings, every selection and weight function",
  "Every test series starts at 0 with unit spacing in the same unit.",
  [DSC, COR], [("time normalisation", DSC + ": calcNormt, settMedian"), ("defaults derived from times", COR + ": Correlator::Correlator")])
P("C08", "Series analysed together are independent",
  "Analysing several data series on one time axis gives, for each, the lags and correlations it would get on its own, in the order given; a single series given as one row equals the same series given flat, and is returned flat. "
  "No other series (constant, with NaN, with a different scale, or duplicated) changes a series' result.",
  ["inputs", "configurations"], "all numbers of series, contents, orders and option combinations, every route",
  "The one multi-series test uses the same series twice, so swapped, mixed or misindexed rows go unseen.",
  [COR, DSC, PY], [("row-major indexing", DSC + ": getVectorIndex, setDataMean, calcNormData"), ("per-series storage", COR + ": addCorrelationData, cleanCorrelationData, correlations")])
P("C09", "The correlation at a lag does not depend on the rest of the grid",
  "For a given series and alpha, the correlation at lag k is the same whichever min_lag, max_lag and lag_resolution produced k: in a single-lag request, in a window, in a much finer, coarser or wider grid, or as the inserted zero lag.",
  ["inputs", "configurations"], "all series and all pairs of grids sharing lags, up to thousands of lags (well beyond the default number)",
  "No test evaluates a lag through two different grids.",
  [COR, PY], [("per-lag evaluation", COR + ": _calculateStandardCorrelation, addCorrelationData, cleanCorrelationData")])
P("C10", "A correlator's results reflect only its current settings, not its history",
  "After any sequence of option changes, computations by either route, clears and reads on correlators, a computation leaves exactly the lags and correlations that a fresh correlator with the same options gives; clearing leaves no lags and no correlations, a later computation restores them, and an option reads back as last set. "
  "Correlators sharing a dataset do not influence each other.",
  ["histories", "inputs"], "all interleavings of set-option, compute (both routes), clear, read, on several correlators over shared data",
  "Every test computes once on a fresh correlator; no test clears, reconfigures or recomputes.",
  [COR, HDR, BND, PY], [("storage resizing", COR + ": addCorrelationData, cleanCorrelationData"), ("clear", HDR + ": clearCorrelation")], ["Correlator.lag_timeseries(), correlations(), option properties"])
P("C11", "A dataset reports exactly the data it was given",
  "A dataset returns the times, values (one row per series) and errors it was built from bit for bit in order (no errors: an empty list), the number of series and of points, normalised times t-t_0, values minus the series mean, the mean of each series, the last time, and the middle normalised time (mean of the two middle ones for an even count). "
  "All of these agree with each other for every shape, and a correlator built on it reports the same values and normalised times.",
  ["inputs"], "all shapes (series count, length 1..thousands), magnitudes and times offsets, with and without errors",
  "Tests check each accessor on one or two fixed lists, mostly 0..4.",
  [DSC, DSB, COR], [("construction", DSC + ": constructors, setUp"), ("accessors", DSC + ": data_2d, err_2d, normalised_data_2d, mean_data, median_time, max_time")], ["DataStructure accessors, Correlator.values(), normalised_timeseries()"])
P("C12", "Missing values are left out of the statistics and never become numbers",
  "NaN values in a series are excluded from its mean and from the normalisation; the correlation at a lag none of whose pairs touches a NaN equals the estimator computed with those statistics, and a lag with a pair that touches a NaN is NaN. "
  "The NaN positions read back unchanged and other series are unaffected.",
  ["inputs", "configurations"], "all positions and numbers of NaN values in any series, all lag windows and functions",
  "Tests check the mean of one list with a trailing NaN; no correlation of a series with NaN is ever compared.",
  [DSC, COR], [("mean over present values", DSC + ": setDataMean"), ("normalisation over present values", COR + ": Correlator::Correlator"), ("propagation", COR + ": findCorrelation")])
P("C13", "Loading a file equals giving its columns as lists",
  "A text file with one 't value [error]' record per line, separated by any mix of commas, tabs and spaces, yields the same dataset as the parsed columns given in memory, whether lines end in LF or CRLF, and whatever the surrounding blanks, number formatting or missing final newline. "
  "Lines starting with '#', blank lines and lines not starting with two numbers (titles) are skipped, further columns are ignored, and where the first record has an error, records without a readable one get NaN; with no error on the first record there are no errors.",
  ["inputs"], "all record sequences, separators, layouts, comment/title/blank line placements, number formats and column counts",
  "Tests only check that ten small files load without an exception; no loaded value is compared. The unmodified code read past the errors of one of these very files.",
  [DSC, PY], [("file constructor", DSC + ": DataStructure::DataStructure(const std::string&)")], ["DataStructure(filename), SACF(filename=...)"])
P("C14", "Input that is empty, mis-shaped or unreadable is rejected with its own error",
  "Building a dataset raises the empty-data error when the times or the values are empty, the bad-input error when any series' length differs from the number of times or the errors' shape differs from the values', the file-read error when the file cannot be opened and the empty-data error when it holds no records; a wrong type raises TypeError. "
  "Every well-shaped input is accepted, and no dataset object results from a rejected one.",
  ["inputs"], "all shape combinations of times, flat and nested values and errors (ragged rows, multiples of the length, transposed errors, too short or long), and file states",
  "Tests try one short and one long flat list whose lengths do not divide; the unmodified code accepted multiples, ragged rows and any errors, and then read out of bounds.",
  [DSC, DSB], [("shape validation", DSC + ": setUp, constructors"), ("exceptions", DSB + ": register_exception")], ["DataStructure(...), SACF(...)"])
P("C15", "No call sequence corrupts memory or kills the interpreter",
  "Any sequence of calls on datasets, correlators and correlation iterators - valid or misused: steps repeated, skipped or out of order, iterators shared between correlators or sized for other data, any option values, lag indices and sizes - either succeeds or raises a Python exception. "
  "It never reads or writes outside its buffers, uses freed memory, or terminates the process.",
  ["histories", "inputs"], "all sequences of calls of the public classes with all argument values within a bounded cost",
  "Tests call one route once; out-of-bounds accesses mostly go unnoticed without a sanitizer. The unmodified code had several.",
  [COR, DSC, BND, DSB], [("bounds checks", COR + ": deltaT, findCorrelation, addCorrelationData, cleanCorrelationData"), ("shape validation", DSC + ": setUp")], ["process exit status, sanitizer reports"])
P("C16", "Time series and grids that cannot be stepped through raise ValueError",
  "A correlation over times that are not finite and strictly increasing, with a lag_resolution that is not positive (zero, negative, NaN) or too small to change the lags it steps through or giving more than 2^31 lags, or with a min_lag or max_lag that is not finite raises ValueError on every route, without hanging or exhausting memory. "
  "Every other combination is accepted and terminates, and a rejected option leaves the correlator's setting as it was.",
  ["inputs", "configurations"], "all orderings of times (unsorted, duplicated, NaN, infinite), all option values including special floats, all routes",
  "No test passes an invalid grid or time order to a computation; the unmodified code looped for ever writing past its storage.",
  [COR, PY], [("time order check", COR + ": Correlator::Correlator"), ("option setters", COR + ": setMinLag, setMaxLag, setLagResolution"), ("steppability", COR + ": checkLagSteps")])
P("C17", "Computing has no side effects",
  "Computing autocorrelations changes neither the dataset nor the caller's inputs; repeating a computation, before or after others with different options and in a new process, gives identical results. "
  "Results and accessors are snapshots: changing returned lists or the original inputs afterwards changes nothing in the dataset, and measurement errors never influence lags or correlations.",
  ["histories", "inputs", "configurations"], "all sequences of computations with differing options on one object, mutations of inputs and outputs between them, and all error values",
  "Each test computes once and discards the object.",
  [PY, DSC, COR], [("fresh correlator per call", PY + ": autocorrelation"), ("copies at the boundary", DSB + ", " + BND)])
P("C18", "Evenly sampled series give the textbook autocorrelation",
  "For a series sampled at t_0 + i*dt (times and lags exactly representable), the correlation at lag h*dt (h = 0, 1, ..., n-1) is sum_{i<n-h} (x_i-m)(x_{i+h}-m) / sum (x_i-m)^2, under both selection functions, every weight function and every alpha, because every pair matches exactly.",
  ["inputs", "configurations"], "all evenly sampled series (any dt and t_0), values, lag windows on the sampling grid and functions",
  "Tests check one series of five values, in which mean, first and last value are 0.",
  [COR, DSC, PY], [("exact matching", COR + ": naturalSelectionFunctionIdx, fastSelectionFunctionIdx, deltaT"), ("lag loop", COR + ": calculateStandardCorrelation")])
P("C19", "Omitted options take their documented defaults, given ones apply alone",
  "An omitted max_lag is the time span, an omitted min_lag minus the time span, an omitted lag_resolution the smallest gap between consecutive times and an omitted alpha the median of the times from the start; passing these values explicitly changes nothing. "
  "Every given option (0 included) is the one used and read back from the returned correlator, and does not alter the defaults of the others.",
  ["inputs", "configurations"], "all series and all subsets of given options with any values, including zeros and negative lags",
  "Tests check the defaults of one series with span 4, gap 1, median 2, and each setter in isolation.",
  [COR, PY, DSC], [("defaults", COR + ": Correlator::Correlator, findMinDiff; " + DSC + ": settMedian"), ("overrides", PY + ": set_up_correlation")], ["autocorrelation(return_correlator=True), Correlator properties"])
P("C20", "Correlators and results outlive the objects they came from",
  "A correlator keeps working, with unchanged results, after every other reference to its dataset or analysis object has been dropped and garbage collected, and after any number of other objects have been created and destroyed. "
  "Lists obtained earlier stay valid and unchanged after the objects they came from are gone.",
  ["histories"], "all interleavings of creating, computing, dropping, collecting and re-reading datasets, correlators and results",
  "Tests keep every object alive to the end of the test.",
  [BND, COR], [("keep_alive of the dataset", BND + ": py::keep_alive<1, 2>"), ("raw dataset pointer", HDR + ": Correlator::ds")], ["Correlator methods after del and gc, under AddressSanitizer"])
P("C21", "Any file content loads or raises a dedicated error",
  "For any bytes whatsoever in a file, loading it either yields a dataset whose times and values are numbers taken from the file's lines in order, no more than one record per line, with all accessors consistent (errors absent or one per record), or raises the empty-data error. "
  "It never crashes, hangs or reads uninitialised or foreign memory.",
  ["inputs"], "all byte strings (binary, huge fields, NULs, stray separators, mutated valid files)",
  "Tests load ten hand-written well-formed files.",
  [DSC], [("file constructor", DSC + ": DataStructure::DataStructure(const std::string&)")], ["DataStructure(filename) under AddressSanitizer/UBSan"])
P("C22", "The exposed steps report the true neighbours, distances and weights",
  "For a lag k, the natural selection step selects for each point i with t_i+k <= t_last, in order, an index of minimal distance to t_i+k (the later on a tie); the distance step gives exactly those distances; each weight step gives the named function of them, with every weight in [0,1], 1 at distance 0 and not increasing with distance. "
  "The per-iteration correlation is the normalised weighted sum of those pairs, one per series, and a result stored at index i reads back at index i.",
  ["inputs", "configurations"], "all series, lags of any sign and size, alphas, weight functions and storage indices",
  "No test reads an iterator's selection_indices, delta_t or weights, or calls a weight function directly.",
  [COR, BND], [("steps", COR + ": naturalSelectionFunctionIdx, deltaT, get*Weights, findCorrelation, addCorrelationData"), ("iterator fields", BND + ": CorrelationIterator")], ["CorrelationIterator fields, Correlator step methods"])
P("C23", "The kind of container or number given does not matter",
  "The same numbers given as lists, tuples, numpy arrays (float64, and integer or float32 where exact), Python or numpy integers and floats, or mixtures, as times, values, errors or options, give identical datasets, lags and correlations. "
  "2-D data may be lists of lists, lists of arrays or 2-D arrays, including strided, reversed or Fortran-ordered ones.",
  ["inputs"], "all pairs of representations of the same numbers, for each argument independently",
  "Tests import ints, floats and one contiguous numpy array and compare none of the resulting data.",
  [DSB, BND, PY], [("conversions", DSB + ": py::init overloads"), ("option conversion", PY + ": set_up_correlation, " + BND)], ["DataStructure(...), SACF(...), autocorrelation options"])
P("C24", "Results do not depend on compiler, optimisation or header set-up",
  "The numerical engine compiled by another conforming C++14 compiler, at another optimisation level, or without the Python headers in front of it gives the same lags and, up to rounding, the same correlations for every series and option setting.",
  ["inputs", "configurations"], "all series and options, over builds by g++ and clang++, with and without optimisation and force-included headers",
  "Tests run one build; the unmodified code truncated all time differences to integers when <math.h> had not been included first, which every build of the plain project does.",
  [COR, DSC, HDR], [("portable arithmetic", COR + ": naturalSelectionFunctionIdx, deltaT")], ["differential runs of differently built engines"])
P("C25", "Repeated use does not accumulate memory",
  "Creating, computing, reading and dropping datasets, correlators, iterators and analysis objects any number of times, or computing any number of times on the same objects, by any route and with any options, keeps the memory and the open files held bounded: what a call allocated is released with the objects it returned. "
  "The same holds for calls that are rejected (bad input, bad options, unreadable or empty files).",
  ["histories", "inputs"], "all call sequences repeated any number of times, including rejected calls and options that differ each time",
  "A test process ends after one use of each call, so nothing there shows what is never released.",
  [COR, DSC, BND, DSB, PY], [("owned iterator per lag", COR + ": _calculateStandardCorrelation"), ("file stream and buffers", DSC + ": DataStructure::DataStructure(const std::string&)"), ("fresh correlator per call", PY + ": autocorrelation")], ["live allocations, live Python objects and open files after each round of repetitions"])
P("C26", "Interleaved and concurrent analyses do not affect each other",
  "Analyses, correlators, lag iterators and datasets in use at the same time give exactly the results each of them gives alone, however their calls are interleaved, and also when the calls come from several threads. "
  "They may share datasets and analysis objects, and a correlator on which only the steps of single lags are made; only a correlator that stores results belongs to one user.",
  ["histories", "schedules"], "all interleavings of the calls of any number of analyses over own or shared objects, and all thread schedules",
  "Tests run one analysis at a time, in one thread.",
  [COR, HDR, BND, PY], [("state per iterator", HDR + ": CorrelationIterator"), ("state per correlator", HDR + ": Correlator"), ("fresh correlator per call", PY + ": autocorrelation, find_correlation")], ["outcomes of interleaved programs and of threads, all accessors"])

P("C27", "A failed call leaves everything else as it was",
  "When a call raises (a rejected setting or option, an unknown function name, a computation that cannot start, input of wrong shape or type, an unreadable file, an iterator for too few series, a bad lag index or count, wrong arguments), the datasets, settings, stored lags and correlations and analysis objects are exactly as before it, and every later call gives what it would have given without the failed one. "
  "Exempt are the iterator passed to the failing call, and the settings SACF.set_up_correlation applied before the one that was rejected.",
  ["histories", "inputs"], "all histories of calls with failing calls at any points",
  "Tests of rejected input check that an exception is raised and use no object afterwards; adding from a short iterator left a lag without correlations behind.",
  [COR, DSC, PY, BND], [("checks before storing", COR + ": addCorrelationData, cleanCorrelationData, checkLagSteps, setMaxLag"), ("fresh correlator per call", PY + ": autocorrelation"), ("validation of shapes", DSC + ": setUp, isRagged")], ["exceptions, and all accessors and results after them"])
P("C28", "Loading a file is all or nothing",
  "Loading a data file gives either the dataset of the whole file or BadDataFileReadException, also when reading fails with an input error at any point of it: records read so far are never taken for the whole file. "
  "Reads that are interrupted by a signal or return less than asked for make no difference, and after a failed load the same file loads normally.",
  ["fault_sequences", "inputs"], "all files and all points of failure, interruption or short reads while they are read",
  "Tests read one small intact file; a read error in a large file returned the records before it as a complete dataset.",
  [DSC], [("record loop", DSC + ": DataStructure::DataStructure(const std::string&)")], ["DataStructure(filename), SACF(filename=...), BadDataFileReadException"])
P("C29", "Running out of memory raises MemoryError and damages nothing",
  "When an allocation of the package fails at any point of building or loading a dataset, constructing a correlator, an analysis by either route, a step of a lag, storing a lag, resizing, or reading results, the call raises MemoryError: the process does not end, and no partial result is returned. "
  "The dataset, the settings and (when storing or resizing failed) the stored lags are as before, there are never more lags than correlations, and repeating the call with memory available gives the right result.",
  ["fault_sequences", "inputs"], "all calls on all series, with any of their allocations failing",
  "No test runs out of memory; a failed resize left more lags than correlations behind.",
  [COR, DSC, HDR], [("resize by building the new storage first", COR + ": cleanCorrelationData"), ("vectors throughout", DSC + ": DataStructure constructors, data_2d")], ["MemoryError, and all accessors and results after it"])
P("C30", "Cost grows in proportion to the work",
  "The CPU time of an analysis, by either route, grows at most in proportion to samples x lags x series (times a logarithm of the samples), that of building or loading a dataset, constructing a correlator, reading results or storing a lag in proportion to what it builds or returns, and none of them with the number of earlier calls. "
  "The memory the compiled calls hold at any time stays within a fixed multiple of the input and the results.",
  ["inputs", "configurations"], "all calls at all sizes of samples, lags, series and histories",
  "Tests run a handful of small inputs once; reading one mean copied the means of all series, so constructing a correlator took time quadratic in their number.",
  [COR, DSC, HDR, PY], [("selection by one forward or binary search per point", COR + ": naturalSelectionFunctionIdx, fastSelectionFunctionIdx"), ("one pass per series", COR + ": Correlator::Correlator, findCorrelation"), ("iterator freed per lag", COR + ": _calculateStandardCorrelation")], ["CPU time, bytes asked for and held, at two sizes of the same call"])
P("C31", "An interrupted call leaves nothing behind",
  "When a call is interrupted (KeyboardInterrupt between any two lines of the package's Python code), the interrupt reaches the caller, and the dataset, the settings of the correlators, other analyses and module-wide state are as before: every later call, the same one repeated included, gives what it would have given without the interruption. "
  "Exempt are the results of the correlator being computed, until it is computed again or cleared, and the settings set_up_correlation had applied already.",
  ["schedules", "histories"], "all calls, all points of interruption, and all later calls",
  "No test interrupts a call.",
  [PY, COR], [("fresh correlator per call", PY + ": autocorrelation"), ("no state besides data", PY + ": SACF"), ("iteration loop", PY + ": find_correlation")], ["KeyboardInterrupt, and all accessors and results after it"])
P("C32", "Results do not depend on the process around the calls, which is left as it was",
  "The same calls give identical results and errors whatever the process they are made in is like: interpreter flags (-O, -OO, -b, -W error), hash seed, locale (a decimal comma included), environment variables, working directory, stack size, number of descriptors, closed standard streams; "
  "and wherever in it they are made: threads, forked children, signal handlers, finalisers, exception handlers, under tracing or profiling, with collection off, amid signals. "
  "Calls write nothing to the standard streams, and leave process-wide state (locale, rounding, signal handlers and timers, working directory, environment, umask, random generators, resource limits, descriptors, warning filters, trace functions) as it was.",
  ["configurations", "inputs"], "all calls on all series and files, all set-ups of the process and places of the call",
  "Tests run in one plain process and look at results only.",
  [PY, COR, DSC, BND], [("record parsing", DSC + ": DataStructure::DataStructure(const std::string&)"), ("rejection by exceptions", PY + ": find_correlation"), ("buffers on the heap", COR + ": naturalSelectionFunctionIdx, findCorrelation")], ["outcomes of all calls, standard streams, process-wide state"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in OUT:
        f.write(json.dumps(p) + "\n")
print(len(OUT), "properties")
