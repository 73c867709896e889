"""Writes properties.jsonl and MANIFEST.json (kept as one source so the two stay in step)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY, COR, DS, CB, DB, PB = ("sacf/sacf.py", "sacf/correlator/Correlator.cpp", "sacf/datastructure/DataStructure.cpp",
                           "sacf/correlator/correlator_bindings.cpp", "sacf/datastructure/datastructure_bindings.cpp",
                           "sacf/include/pybind11/pybind11.h")


def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": observe, "hook_needed": None}}


TESTS = "The 55 tests make single calls, on one thread, with fixed small inputs and no faults"
CORRSTATE = ("correlator state", "settings and stored correlations of one calculation", COR)
DSSTATE = ("dataset", "times, values, errors and the normalised copies, fixed at construction", DS)

PROPS = [
    p("C01", "Concurrent callers get the S-ACF of their own data and settings",
      "When several threads construct datasets and call autocorrelation, whether each uses objects of its own or they share one SACF object, every call returns "
      "exactly the lags and values that the definition of the selective ACF (natural selection, finite values at increasing times) prescribes for that caller's dataset, settings and weight function. "
      "No interleaving of the callers may mix one caller's data, settings or intermediate results into another's, and each result is bit for bit what the same call gives alone.",
      ["schedules", "inputs"], "every interleaving of the callers at points where the interpreter can switch threads, including inside the Python-stepped path and inside any native region that "
      "gives the interpreter lock up or starts threads of its own",
      TESTS + "; none runs two callers at once.", [PY, COR, CB],
      [("every autocorrelation call builds its own Correlator", PY), ("per-step state lives in a CorrelationIterator of the call", COR)],
      ["SACF.autocorrelation", "SACF.data", "Correlator"], [DSSTATE, CORRSTATE]),
    p("C02", "A shared correlator behaves as if its calls ran one at a time",
      "When threads share one Correlator, every method call (setting a limit, calculating, reading lags or correlations, clearing, evaluating a weight) takes effect at one instant between its start and its return. "
      "What the calls return is always explained by some order of them consistent with real time, never by a half-done calculation or a mixture of settings.",
      ["schedules", "histories"], "every interleaving of method calls by two or three threads on one or two correlators, checked by linearizability against a reference model",
      TESTS + "; no test shares a correlator between threads.", [COR, CB], [("the interpreter lock is kept for the whole of each bound call", CB), ("results are stored by resize and swap", COR)],
      ["Correlator.calculateStandardCorrelation", "Correlator.lag_timeseries", "Correlator.correlations", "Correlator settings"], [CORRSTATE]),
    p("C03", "Every result depends only on its own dataset and arguments, never on history",
      "In any history of constructions, calculations, failed calls, property reads and changes to returned objects, each call returns what the definition of the S-ACF (natural selection, finite values at increasing times) prescribes for the dataset as constructed and the arguments given, "
      "with defaults for those left out; any call whatever gives bit for bit the same whenever it is repeated. "
      "A dataset, once constructed, never changes: not through changes to the inputs it was built from, to lists it returned, or to correlators made from it.",
      ["histories", "inputs"], "every sequence of calls over several live objects, including failing calls, mutated inputs and results, and calls with other settings before or between",
      TESTS + " per object; none repeats a call after a different or failing one, none checks earlier results again.", [PY, COR, DS],
      [("inputs are copied at construction", DS), ("a fresh Correlator per call takes its defaults from the dataset", COR), ("results are converted to new lists", CB)],
      ["SACF.autocorrelation", "SACF.data", "DataStructure properties"], [DSSTATE, CORRSTATE]),
    p("C04", "A cancelled call propagates the cancellation and leaves no trace",
      "If an asynchronous exception (KeyboardInterrupt, SystemExit or any other) is delivered at any point of the package's own Python code during a construction or calculation, that same exception reaches the caller. "
      "Afterwards the dataset is unchanged, every later call and every concurrent caller gets correct results, and a correlator whose calculation was cut short gives a complete, correct answer when calculated again.",
      ["crash_points", "schedules"], "every interpreter event (line or opcode) inside the package at which the exception can be delivered, in single- and multi-threaded histories",
      "No test delivers an interrupt; the points at which one can arrive are thousands per call.", [PY, COR], [("all per-call state is local; nothing is cached or swapped in place on shared objects", PY)],
      ["SACF.autocorrelation", "SACF.find_correlation", "SACF.set_up_correlation"], [CORRSTATE]),
    p("C05", "Running out of memory is an error, never a crash or a wrong answer",
      "If any memory allocation inside a call fails, the call either raises (MemoryError; for loading a file any exception) or still returns the fully correct result; the process does not abort and nothing is silently dropped or truncated. "
      "The objects involved stay valid and unchanged apart from the results of the failed calculation, and the same call repeated with memory available gives the correct result.",
      ["fault_sequences", "crash_points"], "every single, repeated or size-dependent failure of the package's own allocations (new and malloc) inside each call of a history",
      "No test makes an allocation fail.", [COR, DS, CB, DB, PB], [("resizing builds aside and swaps", COR), ("every bound call translates C++ exceptions", PB), ("stream state turns failed line reads into exceptions", DS)],
      ["every constructor, method and property"], [CORRSTATE, DSSTATE]),
    p("C06", "Nothing is leaked, whether calls succeed, fail or are cut short",
      "Repeating any history of calls any number of times, including failing calls, interrupted calls, failed reads and allocation failures, and then dropping all objects, retains no growing amount of memory, neither native nor objects of the interpreter, no open file and no thread.",
      ["histories", "fault_sequences"], "every history, repeated; measured as live native allocations, live interpreter objects, memory in use by malloc, open descriptors and threads after dropping everything",
      "No test measures memory, descriptors or threads.", [PY, COR, DS, CB], [("vectors and stack objects own all storage", COR), ("the file stream closes with its scope", DS)],
      ["live native allocations", "live interpreter objects", "open file descriptors", "threads"], [CORRSTATE]),
    p("C07", "A file that cannot be opened or read through is always reported",
      "If opening a data file fails, or any read of it fails before its end was reached, constructing a dataset or SACF from it raises; it never yields a dataset made of the part that was read. "
      "When the fault has passed, loading the same path works and yields all of it.",
      ["fault_sequences", "crash_points"], "every error (EIO, ESTALE, EACCES, ENFILE, ...) at the open or at any read, after any split of the preceding data into reads",
      "Tests cover one missing file; no read ever fails in them.", [DS, DB], [("the stream's error state is checked after the loop", DS)], ["DataStructure(filename)", "SACF(filename=...)"], [DSSTATE]),
    p("C08", "Loading depends on the file's bytes only, not on how they arrive",
      "For any way the operating system splits the data into reads (single bytes, short reads, interrupted calls), any line or file length, from a file or a pipe, and any locale of the process, loading well-formed data gives exactly the rows the text states: "
      "all of them, in order, with every number at full double precision.",
      ["fault_sequences", "inputs", "configurations"], "every chunking and interruption of the reads, lengths across all buffer boundaries, C and C++ locales with other decimal separators, files without size or positions",
      "Tests load two small files, in one read each, in the C locale.", [DS], [("line-based parsing over a buffered stream in the classic locale", DS)], ["DataStructure(filename)"], [DSSTATE]),
    p("C09", "A torn, damaged or changing file gives exactly the rows it stated",
      "Whatever bytes a data file contains, and however it is truncated, extended or damaged before or during the load, the dataset holds exactly the rows that can be parsed from the bytes that were delivered, in order, "
      "with one value per time and either one uncertainty for every row or none at all. A file without a single such row is refused.",
      ["inputs", "fault_sequences"], "every truncation, append or corruption, at rest or between two reads",
      "Tests use intact files.", [DS], [("rows are appended to all columns together", DS)], ["DataStructure(filename)"], [DSSTATE]),
    p("C10", "Objects and results stay valid under any garbage collection schedule",
      "Wherever garbage collections happen, also inside calls, and in whatever order datasets, correlators and results are dropped, a correlator keeps the dataset it was made from alive and correct, "
      "results handed out never change, and no freed memory is used.",
      ["schedules", "histories"], "every placement of collections between and inside calls, every order of dropping the objects, with freed memory reused or poisoned",
      "Tests keep all objects alive to the end and never collect.", [CB, PY, PB], [("keep_alive ties the dataset to the correlator", CB), ("results are copies", CB)],
      ["Correlator", "autocorrelation(return_correlator=True)"], [DSSTATE, CORRSTATE]),
    p("C11", "Inputs that change or fail while being read never yield a corrupt dataset",
      "If reading the input sequences runs other code that raises, changes the inputs, calls the package again or lets other threads run, the construction either raises or yields a consistent dataset: "
      "times, values and uncertainties of one length each, each entry one the input really held at that position, and existing objects are unaffected.",
      ["inputs", "schedules"], "every point of the reading at which the input raises, changes, re-enters the package or switches threads",
      "Tests pass plain lists and arrays only.", [DB, DS, PB], [("inputs are converted to vectors before the object is built, then checked for matching lengths", DS)], ["SACF(...)", "DataStructure(...)"], [DSSTATE]),
    p("C12", "No call reads or writes memory it does not own",
      "For every dataset, setting and order of calls, including non-positive or non-finite settings, irregular data, stepwise calls in unintended orders and failing calls, the package never accesses memory outside its live objects, "
      "never crashes the process, and its outcome never depends on what memory contained before.",
      ["inputs", "histories"], "every input and call order generated, executed in two differently filled heaps with guarded and quarantined blocks and with library assertions",
      "A test passes as long as the stray access does no visible harm.", [COR, DS, CB], [("bounds-checked access and explicit size checks", COR)], ["every constructor, method and property"], [CORRSTATE, DSSTATE]),
    p("C13", "Stepwise per-lag work units equal the batch calculation in any order",
      "Carrying out a calculation lag by lag through the stepwise interface (select, time differences, weights, correlate, store) gives exactly what one batch calculation gives, "
      "in whatever order the lags are processed, however the steps of different lags are interleaved, and from however many threads.",
      ["schedules", "histories"], "every order and interleaving of the per-lag steps by one to three callers",
      "Tests run single steps in the intended order on one iterator.", [COR, PY, CB], [("all state of one lag is in its CorrelationIterator", COR), ("results are stored by index", COR)],
      ["CorrelationIterator", "Correlator stepwise methods", "SACF.find_correlation"], [CORRSTATE]),
    p("C14", "A reused correlator answers like a fresh one",
      "However often and with whatever settings, failures, clears and reads a correlator was used before, each calculation on it gives exactly the lags and correlations a fresh correlator with the same settings would give, "
      "with as many lags as the present settings prescribe; clearing leaves it empty.",
      ["histories"], "every sequence of settings changes, calculations by either path, clears, refused settings and failed allocations on one correlator",
      "Tests calculate once per correlator.", [COR, PY], [("storage is sized by the settings in force and trimmed to what was calculated", COR)], ["Correlator"], [CORRSTATE]),
    p("C15", "Every call finishes in work proportional to what was asked for",
      "Every call returns or raises within a number of steps bounded by the size of its data and the number of lags its settings describe; settings under which the lag cannot advance, or that describe endlessly many lags, "
      "are refused instead of looping or exhausting memory, by every path.",
      ["inputs", "configurations"], "every combination of limits, resolution and alpha, including zero, negative, vanishing, infinite and NaN ones, and damaged files; progress counted in allocations, interpreter events and basic blocks",
      "Tests use ordinary settings only.", [COR, PY], [("the lag must increase in each step; the number of steps is checked first", COR)], ["SACF.autocorrelation", "Correlator.calculateStandardCorrelation", "SACF.find_correlation"], [CORRSTATE]),
    p("C16", "A fault stays with the call it hit",
      "When several callers work at once and any of their calls meet exhausted memory, unreadable files, cancellation, failing or changing inputs, bad arguments or garbage collections, only the call that was hit may fail, and only with an exception. "
      "Every other call of every caller, before, during and after, returns exactly the S-ACF of its own dataset and settings.",
      ["fault_sequences", "schedules", "histories"], "every combination of faults over the calls of one to three concurrent callers sharing datasets",
      "No test injects any fault, let alone several with several callers.", [PY, COR, DS, CB, PB], [("no state is shared between calls except immutable datasets", PY)],
      ["SACF.autocorrelation", "DataStructure", "Correlator"], [DSSTATE, CORRSTATE]),
    p("C17", "A call made inside another call disturbs neither",
      "A call of the package that begins while another is under way on the same thread (from a signal handler, a finaliser, a trace function or an input being read) and any number of calls nested that way all complete, without deadlock, "
      "and each, inner and outer, returns exactly what it would return alone for its own dataset, settings and weight function; calculations (calculateStandardCorrelation) sharing one correlator answer as if made one after the other.",
      ["schedules", "histories"], "every point of the package's Python code, and of the reading of an input, at which other code can be entered on the same thread; every call that can be made there, on the same objects or others",
      TESTS + "; none enters the package while it is already in a call.", [PY, COR, CB], [("all state of a calculation belongs to the call", PY), ("no lock is held while other code can run", CB)],
      ["SACF.autocorrelation", "SACF.data", "Correlator", "DataStructure"], [DSSTATE, CORRSTATE]),
    p("C18", "A forked child answers like its parent",
      "If the process forks at any moment, also while other threads are inside calls, and after any history, then in the child every call on the inherited datasets, on new ones and on correlators no call was inside completes and returns the correct result, "
      "and the parent goes on as if it had not forked.",
      ["schedules", "histories"], "every moment of a fork relative to the calls of other threads, and every history before and in the child",
      "No test forks; a fork leaves the child with the memory of all threads and none of them but its own.", [PY, COR, DS, CB], [("no call needs a lock, a thread or a file held from one call to the next", PY)],
      ["SACF.autocorrelation", "DataStructure", "Correlator", "os.fork"], [DSSTATE, CORRSTATE]),
    p("C19", "The process is left as it was found",
      "No call, whether it succeeds, fails, is interrupted or overlaps others, changes anything of the process beyond its own results: signal handlers and mask, C and C++ locale, floating-point mode, working directory, umask, environment, "
      "recursion limit, switch interval, garbage collector switch, trace and warning settings, random state, standard streams, open files and the data files themselves are afterwards as before, and nothing is printed.",
      ["histories", "fault_sequences", "schedules"], "every history, with faults and overlapping callers, from any such setting to begin with",
      "No test looks at the process around the package, and every one begins with the same settings.", [PY, COR, DS, CB], [("calls use local state only; parsing imbues its own stream, not the process", DS)],
      ["process state after each call"], []),
    p("C20", "The process can end at any moment",
      "Whenever the process ends, by returning, sys.exit or an uncaught exception, after any history and while other threads, daemonic or not, are inside calls, it ends promptly and with its own status, without a crash, a hang or output of the package. "
      "Calls made while it ends, by threads still at work and by exit handlers registered before or after the package was imported, return exactly what they would at any other time.",
      ["schedules", "histories"], "every moment of ending relative to the calls of other threads, every history before it, every call made from an exit handler or by a thread that outlives the main one",
      "The test runner ends once, with no call under way and no call after.", [PY, COR, CB], [("no call depends on a thread, pool or table that ends before the callers do; no object of static lifetime needs the interpreter", PY)],
      ["SACF.autocorrelation", "DataStructure", "Correlator", "sys.exit", "atexit"], [DSSTATE]),
]
NA = [
    p("P01", "The S-ACF is 1 at lag zero and invariant under affine changes of the values",
      "For every dataset with varying values, the correlation at lag zero is 1, and scaling or shifting the values or shifting the times changes no correlation beyond rounding.",
      ["inputs"], "every dataset", "Tests sample a few datasets.", [COR, DS], [("normalisation by the zero-lag sum", COR)], ["SACF.autocorrelation"]),
    p("P02", "On evenly sampled data the S-ACF is the ordinary autocorrelation",
      "For every evenly sampled dataset and lag resolution equal to the sampling step, the result equals the classical sample autocorrelation and is symmetric in the lag.",
      ["inputs"], "every evenly sampled dataset", "Tests sample a few datasets.", [COR], [("natural selection with zero time difference", COR)], ["SACF.autocorrelation"]),
    p("P03", "Selection functions pick what the paper defines",
      "For every dataset and lag, natural selection picks the closest observation and fast selection its approximation, as the paper defines them.",
      ["inputs"], "every dataset and lag", "Tests sample a few lags.", [COR], [("naturalSelectionFunctionIdx, fastSelectionFunctionIdx", COR)], ["Correlator.naturalSelectionFunctionIdx", "Correlator.fastSelectionFunctionIdx"]),
]
NA_REASON = {
    "P01": "a pure function of one call's arguments: no schedule, fault, time or I/O can influence it. The reference model the simulation compares every call with has it as a consequence, but deciding it over all inputs is not a matter of schedules or faults.",
    "P02": "a pure function of one call's arguments, like P01: nothing for a scheduler or fault injector to decide.",
    "P03": "a definition, evaluated purely; natural selection is part of the reference model of C01-C20, what 'fast' must pick is stated by the paper only approximately, so simulated runs check it for self-consistency alone.",
}
QUICK = "python3 run.py check %s"
TECH = "deterministic simulation with fault injection: seeded search over %s, judged by %s"
WHAT = {
    "C01": ("thread interleavings", "a reference model and bitwise agreement with the solo run"),
    "C02": ("thread interleavings of shared-correlator histories", "linearizability against a reference model"),
    "C03": ("call histories in a simulated heap", "a reference model and bitwise repeatability"),
    "C04": ("interrupt points and interleavings", "a reference model after the fault"),
    "C05": ("allocation-failure points", "exception classification, a reference model and heap checks"),
    "C06": ("histories with allocation, interrupt and read faults", "live-allocation and descriptor accounting over repetitions"),
    "C07": ("open and read error sequences", "the rule that an unreported error is a violation, and a reference parser"),
    "C08": ("read delivery schedules and locales", "a reference parser"),
    "C09": ("torn, damaged and concurrently changed files", "a reference parser over the bytes delivered"),
    "C10": ("garbage-collection and lifetime schedules with poisoned freed memory", "a reference model and heap checks"),
    "C11": ("live-input events and interleavings", "consistency of the snapshot with what the inputs held"),
    "C12": ("histories executed in two differently filled guarded heaps", "red zones, quarantine, library assertions and equality of the two runs"),
    "C13": ("orders and interleavings of stepwise work units", "a reference model and bitwise agreement with the batch"),
    "C14": ("reuse histories with refused settings and allocation faults", "a reference model of the correlator"),
    "C15": ("extreme settings and files under step budgets", "bounds on allocations, interpreter events and basic blocks"),
    "C17": ("points of re-entry on one thread", "a reference model of every call, inner and outer, and a bound on waiting"),
    "C18": ("fork points among the calls of several threads", "a reference model in child and parent and a bound on waiting"),
    "C19": ("histories, faults and interleavings under varied process settings", "comparison of the process state before and after every call"),
    "C20": ("moments of process end among the calls of several threads", "exit status, output, a bound on waiting and a reference model of the calls made meanwhile"),
    "C16": ("combined fault sequences and interleavings", "a reference model; only the call hit may fail"),
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in PROPS + NA:
            f.write(json.dumps(q) + "\n")
    m = {"version": 1, "setup_cmd": "python3 run.py setup",
         "checks": [{"property": q["id"], "quick_cmd": QUICK % q["id"], "thorough_cmd": QUICK % q["id"], "evidence_file": "evidence/%s.json" % q["id"],
                     "technique": TECH % WHAT[q["id"]], "level": "exploration",
                     "level_note": "seeded search on the real package; what was reached in each run is in the evidence file; replay: python3 run.py replay FILE"} for q in PROPS],
         "not_applicable": [{"property": q["id"], "reason": NA_REASON[q["id"]]} for q in NA]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        for line in f:
            q = json.loads(line)
            assert len(q["title"]) <= 80, q["title"]


main()
