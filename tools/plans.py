"""What each check explores (numbers of runs, rules) and the text that goes into every evidence file."""
_seed = "One run = one seed: the seed decides the data set (records, mutants, optional fields), the settings, the sequence of operations, every fault (which call, which occurrence, which error, single or lasting), heap and stack contents, and the thread schedule. "
_nt = "A run counts as non-trivial if at least two answers were compared with the reference or a fault fired"; _d = "; distinct = different complete transcript (every operation and answer)."
PROPS = {
 "C01": dict(runs=3200, rule=_seed + "Query histories over one or several engines with fixed data and settings (repeats, neighbouring T and P, other solvents' and models' queries in between, eviction at small limits); every answer is compared bit by bit with that of a freshly started process asked only this query. " + _nt + _d),
 "C02": dict(runs=1600, rule=_seed + "Queries interleaved with appends, overwrites, solvent switches, preference and convention changes and their undoing; every answer is compared with a new engine (fresh process) built with the data and settings the model holds at that moment. " + _nt + _d),
 "C03": dict(runs=2400, rule=_seed + "Histories in which many calls must fail (unknown symbols, records lacking methods, parameters or reactants, unusable files, I/O errors, memory exhaustion at the n-th allocation, single or lasting); each failing call must throw, and every later answer must equal that of a fresh process in which the failed call was never made. " + _nt + _d),
 "C04": dict(runs=4000, rule=_seed + "Populations of engines, databases, batches and records that are copied, assigned, moved, changed, queried and destroyed in any order with freed memory scribbled; each answers as a model of its own history. " + _nt + _d),
 "C05": dict(runs=5000, rule=_seed + "Sequences of add/set/append/get/copy/parse operations on databases, with and without failures, compared operation by operation with a map from symbol to record. A run counts as non-trivial if it has at least five operations or a fault fired" + _d),
 "C06": dict(runs=2000, rule=_seed + "Loads and appends of data files that are intact, truncated, torn, corrupted, or read through a file system giving short reads, EINTR, EIO, EACCES, EMFILE, vanishing files; the database afterwards holds exactly the records of the file, or an error was raised or logged. A run counts as non-trivial if it has at least five operations or a fault fired" + _d),
 "C07": dict(runs=6000, rule=_seed + "Batch results exported as table, transposed table, property grid or row by row, with disks that fill up, short writes, EIO, failing open and close; a call that returns normally left a file whose every cell parses back to the value a fresh engine gives for its own coordinates. A run counts as non-trivial if it has at least five operations or a fault fired" + _d),
 "C08": dict(runs=4000, rule=_seed + "Batch calls of every kind, loop order, unit, digit, increment and preference setting over several batches, copies of them and outputs read immediately or long after later calls; each number is compared with the direct engine query of its own cell in a fresh process. " + _nt + _d),
 "C09": dict(runs=3000, rule=_seed + "Two to four threads, each with its own databases, engines, batches and files, run under a scheduler that decides at every memory access of ThermoFun code (instrumented) whether to switch (PCT with random change points, conflict-directed and uniform policies); each thread's answers equal those it gives alone. " + _nt + _d),
 "C10": dict(runs=1300, variants=True, rule=_seed + "Each plan runs four times: two heap/stack fill patterns and two builds with automatic variables initialised to zero and to a pattern; all transcripts must agree, and no block boundary or freed block may be written. " + _nt + _d),
 "C11": dict(runs=2200, rule=_seed + "Work that creates, queries, fails (including allocation and I/O failures), exports and destroys is done, repeated and measured with the simulator's count of live blocks and open descriptors; repeated and different queries under small limits and with remembering off. A run counts as non-trivial if it has at least five operations or a fault fired" + _d),
 "C12": dict(runs=3000, rule=_seed + "Log reconfiguration, redirection and silencing at any point, with log storage that cannot be opened, fills up, fails to write or rotate; answers equal those of a fresh process with the default log. " + _nt + _d),
 "C13": dict(runs=3000, rule=_seed + "The host program changes its locale (decimal comma and grouping, in the C++ library, the C library or both) at any point of load, query, reaction-equation, batch and export histories, some with storage faults; answers, record contents and every cell of exported files equal those of a fresh process under the default locale. " + _nt + _d),
 "C21": dict(runs=2600, rule=_seed + "Reactions and substances defined by reactions are queried (by symbol, record, equation) between appends and overwrites, solvent, preference and convention changes, failing calls and memory limits; every answer must equal, within rounding, the sum over the reactants of coefficient times the answer a fresh process gives for each, and bit by bit the answer of a fresh process. " + _nt + _d),
}
COMPONENTS = dict(
 real=["all of /repo/ThermoFun compiled from the working tree (database, engine, models, batch, output, CSV, log set-up, JSON import)", "nlohmann::json and spdlog/fmt as installed", "libstdc++ streams and containers", "pthreads (parked and released one at a time by the scheduler)"],
 simulated=["operating-system file calls (open/openat/fopen/read/write/writev/close/rename/unlink... on data, CSV and log files: real files in a scratch directory behind a fault-injecting layer)", "memory allocator (failures, fill patterns, guard zones, quarantine, live counts)", "thread scheduler (every instrumented access is a scheduling point)", "clock"],
 stub=["ChemicalFun formula parser: a small implementation of the interface used (the library is not installed here)"])
ASSUMPTIONS = ["a clean run is evidence, not proof: seeds sample the space", "scheduling points are the memory accesses, atomics, locks and static-initialisation guards of ThermoFun code; library internals run undisturbed between them", "the formula parser stub agrees with ChemicalFun on the formulas used"]
