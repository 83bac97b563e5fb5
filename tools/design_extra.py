COMMON = '''
## How a case is decided

* **Cases are JSON.** `cases(tier)` is a Hypothesis strategy of JSON values, `judge(case, client)` runs programs in the
  worker and raises `Violation` when the oracle disagrees. The replay file of a violation is the shrunk JSON case
  (`python3-vt check.py <ID> --replay FILE` runs it again), written under `/verif/replays`.
* **Seeds.** `VERIF_SEED` (or `--seed`) seeds every shard (8 processes); same seed, same cases.
* **Builds.** `lib/build.py` copies /repo's working tree to a scratch directory of the run, builds there with the
  project's own CMake files and removes it afterwards: `release` (as setup.py does), `san` (g++ with
  address and undefined-behaviour sanitizers and libstdc++'s container checks), and the variants of C24. /repo is never
  written to.
* **Reference model (`lib/ref.py`).** Written from the paper's definition, not from the code: every selection decision
  (is t_i+k <= t_last, which sample is nearest, tie) is made in exact integer arithmetic on the common binary scale of the
  doubles. When sums t_i+k are exactly representable the decision is binding (including ties and the end). Where they are
  not, decisions within rounding error (16 ulp of the largest magnitude) accept either reading. Sums use `math.fsum`; the
  tolerance is a forward error bound on any reasonable double evaluation (mean error, term error, normalisation error),
  so reordering sums, hoisting a division or using Welford/two-pass variants stays inside; a one-pass
  `sum x^2 - n m^2` or a float accumulator does not. A series whose own error bound exceeds 1e-3 (spread below the
  rounding of its offset) is not judged and counts as `illcond`.
* **Series (`lib/gens.py`).** Times: regular, integer gaps, bursts, multi-scale gaps, blocks of different cadence with gaps between,
  tiny gaps, jitter, non-dyadic steps, in units from 2^-20 to 2^17 and offsets up to 2.4 million; lengths 1 to some hundreds (thousands in
  a share of the cases, up to 66000 in a few, where the values come from seeded bytes; more than 1000 lags or series in a few), a
  few series in units of 2^-600...2^600; values: small integers, random, offset up to 1e12 times the spread, scales
  1e-60...1e60, spikes, steps, constant, with NaN where the property speaks of it. Options: on-grid, half-grid, off-grid,
  zero, inverted, single-lag, far outside.
* **Coverage-guided cases (`lib/guided.cpp`, `lib/guided.py`).** C01 to C06, C08 to C12, C21, C22 and C24 first run libFuzzer for 10 s (thorough:
  120 s) on 8 processes over the compiled engine: bytes are decoded into a series with options and up to three uses of one correlator (for C21: used
  as a file, under sanitizers). Half of the processes use value profiles. The inputs that reached new code, those that crashed, and those that a
  plain C++ evaluation of the definition disagrees with become cases of the property's own judge, which alone decides, on the real PyPy build; a
  failing one is simplified by removing points, series, options and uses. About 150000 runs of the engine give some hundred judged cases. When the
  engine does not compile on its own against lib/guided.cpp (say, after its classes were renamed), the stage is skipped and the evidence says so.
* **Non-trivial rule.** Each module states one (below); a run in which fewer than one case in fifty is non-trivial and distinct is an
  ERROR (exit 2), so a generator that decays cannot pass silently.
* **Crash, hang, memory.** The worker runs with a CPU-time budget and an address-space limit; dying, a sanitizer report or
  exceeding them is an outcome of the call, and a violation unless the property says otherwise.
'''
EXTRA={
'C01':("`ref.Series.corr` at every returned lag (up to 48 per case incl. ends and around 0).","The tests compare four stored series at one tolerance; a wrong tie-break, edge, cutoff or precision loss needs particular spacings or offsets."),
'C02':("`ref.grid` (repeated addition, one inserted zero) value for value when representable; otherwise structure: first lag, steps within accumulated rounding, monotone, last lag within one step of max_lag, zero inserted exactly at a sign change.","Off-by-one ends, tolerance on zero, and storage sized by another grid show only for particular windows."),
'C03':("Same reference with the three weight formulas; undocumented names must raise.","The tests run each weight on one series without checking far or tiny distances."),
'C04':("`ref.select(..., 'fast')` and, on even series, the natural selection's results.","The tests cover fast selection on an even series only."),
'C05':("Differential: compiled route, `find_correlation`, the public pieces called one at a time, `autocorrelation()`; lags identical, correlations within the reference's tolerance.","Two implementations of one definition can drift for any option the tests do not combine."),
'C06':("Metamorphic: x and a*x+b; lag 0 against 1.","Needs scales and offsets no test has."),
'C07':("Metamorphic: exact shifts and scalings of times and options.","Absolute thresholds on times (1e-8, 1e-9) need another unit."),
'C08':("Metamorphic: joint, separate and permuted analyses.","Shared accumulators and early exits need several rows of certain kinds in certain order."),
'C09':("Metamorphic: the same lag by different grids.","Any state carried from one lag to the next (search hints, buffers, counters) only shows on certain grids."),
'C10':("Model-based (stateful): the model keeps each correlator's options and compares each computation with a fresh correlator's, bit for bit.","Stale buffers and memos need a history; the tests compute once per object."),
'C11':("The input itself, bit for bit; exact mean by integer sums with an error bound.","Every shape, order and special value; tests use two files."),
'C12':("Reference with NaN-excluding statistics; NaN exactly where a pair touches a NaN.","The tests have no missing values."),
'C13':("The records the generator wrote the file from, given in memory, and Python's float().","The space of layouts; the tests have four files."),
'C14':("A small shape model stating which error (or acceptance) is due.","Ragged inputs with the right totals, empties nested in rows etc."),
'C15':("AddressSanitizer, UBSan (fatal), checked containers, worker survival; Python exceptions are fine.","Misuse sequences and sizes; no test misuses the API."),
'C16':("Model: which defect must give ValueError; controls must be accepted and terminate; after a rejection the setting reads back as before.","Hangs and huge allocations need particular floats."),
'C17':("Metamorphic: same computation before/after others and after mutation; a new process.","Aliasing and caches need a second use."),
'C18':("Direct textbook sums with exact index pairs.","All lengths, steps, and offsets."),
'C19':("Read-back and metamorphic (explicit defaults change nothing).","All subsets of options, incl. 0."),
'C20':("The same program with everything kept alive; ASan for use-after-free; the release build for address reuse (ASan's quarantine prevents it, so both are needed).","Needs drops, collection and reuse of freed memory in a certain order."),
'C21':("Line parser over plainly numeric/plainly non-numeric tokens, otherwise a subsequence relation of records to lines; ASan/UBSan.","Arbitrary bytes."),
'C22':("`ref.select` and the weight formulas per step, monotonicity and bounds of weights.","Intermediate reads are checked nowhere in the tests for irregular series."),
'C23':("Bit-identical to plain lists.","Strides, orders, dtypes and mixtures."),
'C24':("Differential between four builds: project's own, g++ -O0 with `-ftrivial-auto-var-init=pattern` and no Python headers, clang++ -O2, g++ -Os.","A single build cannot show uninitialised locals or overload resolution that depends on headers."),
'C25':("Invariant over the history: live `operator new` blocks and bytes (counted by a preloaded `lib/newcount.cpp`), live Python objects and open files after each of six rounds of repetitions; a violation is growth in each of the last four.","Needs repetition; no assertion on results can see it."),
'C26':("Differential: every outcome of every task, bit for bit, against the task run alone in its own program. Interleavings are drawn; thread schedules are whatever the interpreter does at the smallest switch interval (six repetitions), so those are sampled, not controlled.","Needs two analyses in flight; no test has that."),
'C27':("Metamorphic: the same history without the failing calls, every outcome of the other calls bit for bit; the failing calls must raise.","Needs a failing call between two uses of an object."),
'C28':("The dataset of the undisturbed file, or BadDataFileReadException; `lib/newcount.cpp` interposes `read()` and fails, interrupts or shortens the n-th one, n swept.","Needs a read error; no test has one."),
'C29':("The undisturbed outcome, or MemoryError and then the state before the call; `lib/newcount.cpp` throws bad_alloc at the n-th allocation of 400 bytes or more made by the package's modules, n swept. Smaller allocations and the binding layer's hash tables (pybind11 ends the process when those fail) are left alone.","Needs memory to run out in the middle of a call."),
'C30':("Metamorphic: the same generated task at two sizes (32 times the samples, lags, series or earlier calls); CPU time (least of several runs, confirmed by two more measurements) and bytes asked for may grow 4 times as much as the work; the peak of live allocations is bounded by a multiple of input and results.","Needs sizes at which the growth shows; no assertion on results can see it."),
'C31':("Metamorphic: the same program without the interruption, bit for bit; a trace function raises KeyboardInterrupt at the n-th line of package code, n drawn over the call.","Needs an interrupt in the middle of a call."),
'C32':("Differential: every outcome, bit for bit, against the plain process, for generated programs in nine differently set up processes (two per case) and from thirteen places in a process; invariant: the process-wide state and the standard streams before and after. Decimal-comma locales are compiled with `localedef` into the scratch directory.","Needs another process set-up, locale or place of the call; every test runs in one plain process."),
}
TAIL='''
## Decisions

* Negative lags are not the mirror image of positive ones: only points with t_i+k <= t_last count, and points shifted before
  the first sample pair with the first. That is the estimator the code and paper define, so C01 states it.
* A pair that touches a NaN makes that lag NaN (C12): the code propagates, and silent numbers would be worse.
* Lags are accumulated by addition; drift by rounding is accepted (C02), the compiled and stepwise routes must drift alike (C05).
* Rows of a file whose time or value is not a number are skipped (C13); duplicate times are a ValueError (C16).
* 'fast' is not used as an "undocumented" weight name, nor weights as selections (C03), as either reading is defensible.
* Where two rejections apply at once either dedicated error is accepted; an input that is only empty must raise the
  empty-data error (C14).
* Objects made without their constructor (`__new__` alone, unbound methods on None) are pybind11's own matter (C15).
* Files with bare CR line ends are not generated for C13 (they are for C21).
* alpha > 0 throughout, except C15/C16.

## False alarms met and corrected

* C16: after a rejected setting the remaining ones could ask for a grid of 10^8 lags, which ended in MemoryError; such grids are
  not computed.
* C25: `malloc_usable_size` varies with fragmentation (exact requested sizes are counted instead); iterators kept by the case
  itself gather steps; the interpreter's own objects come and go (rounds of growing size decide).
* C29: pybind11 ends the process when its own registry of objects cannot grow, and numpy when its C++ parts cannot allocate;
  only allocations asked for by the package's modules are failed, and not those of the size of a hash table.
* C14: numpy arrays whose rows have one element are converted to numbers by numpy itself, so a "2-D" times array of
  shape (n, 1) is accepted by pybind11; not judged any more (nor generated in C23).
* C11: `math.fsum` overflowed in the oracle for values near 1.8e308 (exit 2, never a violation); the mean of such series is not judged.
* C02: an early version demanded i*resolution exactly; corrected to allow accumulated rounding.

* Worker killed by its memory limit (C05, C08): PyPy keeps freed arenas, so a long-lived worker grew to the limit; it now collects
  garbage after each program and is replaced above 1.5 GB.
* C10: series in units of 2^600 overflow the differences of inverted windows; such units are not generated there (C03, C07 do).

## Findings

Eighteen `fix:` commits (listed in known_findings.txt). No finding is left open, so no check prints KNOWN-FINDING.

## What the technique does not do

* It samples. A defect that needs one lag among thousands, one particular length beyond those drawn, or a value hit with
  probability below about 1e-5 per case can pass the quick tier; the thorough tier runs about 20 times the cases.
* C24 covers the compilers installed here on x86-64; no other architecture, no FMA.
* C30 judges growth between two sizes; a constant factor (say, everything twice as slow) is not a violation of anything here.
* Compiled calls cannot be interrupted in the middle (the code never checks for signals), so C31 interrupts Python lines only.
'''
CAUGHT={}
