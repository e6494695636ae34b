"""What each check runs and how it counts; used for evidence, needs no NumPy."""

STORAGE = (
    "real: the package from /repo's working tree, NumPy, json, csv, the Python runtime with its I/O stack, the kernel's file "
    "system below a private directory; simulated: outcome of every libc call that changes files (preloaded seam)"
)
SCHEDULED = STORAGE + (
    "; simulated: thread scheduling (real threads, exactly one runs, switched at bytecodes of the package), locks, sleeping, "
    "clocks, entropy"
)
NO_TIME = "none: the package reads no clock; the simulated clock advances only if it is read"

FACTS = {
    "C01": {
        "level": "exploration",
        "runs": {"quick": 3000, "thorough": 60000},
        "rule": "one case per export that returned normally and whose file was decoded and compared with the reference model; "
        "distinct by (file type, coordinates, object kind, segment-count class, named or not, faults that fired with operation, "
        "errno and ordinal, earlier content of the destination)",
        "components": STORAGE,
        "assumptions": [],
    },
    "C02": {
        "level": "exploration",
        "runs": {"quick": 3500, "thorough": 60000},
        "rule": "one case per export that must be rejected, with the whole tree and the storage log inspected; distinct by "
        "(offending names, object kind, reason of rejection by position, decade of the duration, earlier content of the "
        "destination, armed faults)",
        "components": STORAGE,
        "assumptions": [
            "sequences within 3 % of the limit of what the maximum rates allow are not judged",
        ],
    },
    "C03": {
        "level": "fault_enumeration",
        "runs": {"quick": 450, "thorough": 8000},
        "rule": "per run one export; every storage operation of it (up to 12 of them) is failed in four ways, plus random pairs "
        "of faults; one case per export in which a fault fired; distinct by (fault kind, errno, operation, ordinal, persistence, "
        "file type, coordinates, object kind, number of storage operations, last storage operation)",
        "components": STORAGE,
        "assumptions": ["unlink is never failed, so that an implementation that removes a temporary file can do so"],
    },
    "C04": {
        "level": "fault_enumeration",
        "runs": {"quick": 260, "thorough": 3000},
        "rule": "per run up to three exports; the process is killed before, inside and after every storage operation (up to 10 of "
        "them) of the last one; one case per kill; distinct by (mode, ordinal, earlier content, file type, coordinates, object "
        "kind, state found)",
        "components": STORAGE,
        "assumptions": ["the process dies, the operating system does not: data handed to the kernel is not lost"],
    },
    "C05": {
        "level": "exploration",
        "runs": {"quick": 1200, "thorough": 30000},
        "rule": "one case per run in which at least two threads worked and at least one switch happened inside a call; distinct by "
        "the sequence of (thread, bytecode position, next thread) at all context switches",
        "components": SCHEDULED,
        "assumptions": ["calls into NumPy and the standard library are atomic, as one bytecode of the package is"],
    },
    "C06": {
        "level": "exploration",
        "runs": {"quick": 1500, "thorough": 40000},
        "rule": "one case per history with at least two calls, each compared with the same call in a fresh process; distinct by "
        "the sequence of (function or query, object, outcome class, in-place changes)",
        "components": STORAGE,
        "assumptions": [],
    },
    "C07": {
        "level": "fault_enumeration",
        "runs": {"quick": 800, "thorough": 30000},
        "rule": "one case per call aborted by an exception at a chosen executed line; distinct by (function or query, source "
        "line, exception)",
        "components": STORAGE + "; simulated: the exception raised at the chosen line (trace function)",
        "assumptions": [
            "aborts are not raised inside cleanup code (finally, except, __exit__) nor on the lines entering with or try "
            "statements, where Python gives no code a chance to defend itself",
        ],
    },
    "C08": {
        "level": "exploration",
        "runs": {"quick": 1300, "thorough": 30000},
        "rule": "one case per call with ambient state compared before and after and the result compared with that in an "
        "unperturbed process; distinct by (function or query, outcome class, set of perturbed settings)",
        "components": STORAGE
        + "; simulated: clocks, entropy, answers to environment variables the package asks for; real but perturbed: NumPy "
        "print options and error state, random generators, working directory, environment, locale, umask, warning filters",
        "assumptions": [],
    },
    "C09": {
        "level": "exploration",
        "runs": {"quick": 2000, "thorough": 40000},
        "rule": "one case per history with a query after a change after a query on the same object; distinct by the sequence of "
        "(object, change or query, outcome class)",
        "components": STORAGE,
        "assumptions": [],
    },
    "C10": {
        "level": "exploration",
        "runs": {"quick": 900, "thorough": 20000},
        "rule": "one case per run in which at least two threads worked, a fault fired and a switch happened inside a call; "
        "distinct by (sequence of context switches, exports that were hit)",
        "components": SCHEDULED,
        "assumptions": ["calls into NumPy and the standard library are atomic, as one bytecode of the package is"],
    },
    "C11": {
        "level": "exploration",
        "runs": {"quick": 800, "thorough": 30000},
        "rule": "one case per call made inside another call, both compared with the same call alone; distinct by (outer call, "
        "inner call, source position of the interruption)",
        "components": STORAGE + "; simulated: the moment at which the interrupting code runs (trace function)",
        "assumptions": ["interruptions happen between bytecodes of the package, as Python delivers signals"],
    },
    "C12": {
        "level": "exploration",
        "runs": {"quick": 2000, "thorough": 40000},
        "rule": "one case per history of creations, changes, messages, tasks and crashes in which something was sent to another "
        "process; distinct by the sequence of (operation, outcome class)",
        "components": STORAGE
        + "; simulated: two or three processes as separate instances of the package inside one process, the messages between "
        "them (real pickle bytes; delayed, reordered, duplicated), crashes and restarts, a pool of workers",
        "assumptions": ["both sides run the same version of the package"],
    },
    "C13": {
        "level": "exploration",
        "runs": {"quick": 900, "thorough": 20000},
        "rule": "one case per run with a fork while another thread was inside a call; distinct by the sequence of (thread, "
        "bytecode position, next thread) at all context switches",
        "components": SCHEDULED + "; real: os.fork, performed while the other threads stand still at bytecodes of the package",
        "assumptions": ["calls into NumPy and the standard library are atomic, as one bytecode of the package is"],
    },
    "C14": {
        "level": "exploration",
        "runs": {"quick": 96, "thorough": 2000},
        "rule": "one case per life of a process of over a thousand calls with the population of live objects, open files, threads "
        "and files compared; distinct by (functions, queries or not, files or not, fault kinds, share of rejected calls)",
        "components": STORAGE + "; simulated: the exception raised at the chosen line (trace function)",
        "assumptions": ["tables bounded below about five hundred entries count as bounded"],
    },
    "C15": {
        "level": "exploration",
        "runs": {"quick": 1000, "thorough": 30000},
        "rule": "one case per run in which control passed between processes in the middle of exports; distinct by the sequence "
        "of (process, before or after a storage operation, waiting, ended) and the fault kinds that fired",
        "components": STORAGE + "; real: the processes (forked, each with its own copy of the package), file locks; simulated: "
        "which process goes on at each storage operation, wait for a lock and sleep",
        "assumptions": ["processes influence each other only through files"],
    },
    "C16": {
        "level": "exploration",
        "runs": {"quick": 900, "thorough": 20000},
        "rule": "one case per run with at least two threads, a switch inside a call and an abort that fired; distinct by the "
        "sequence of (thread, bytecode position, next thread) at all context switches and the places of the aborts",
        "components": SCHEDULED + "; simulated: the exception raised at the chosen line or operation (trace function)",
        "assumptions": ["calls into NumPy and the standard library are atomic, as one bytecode of the package is"],
    },
    "C17": {
        "level": "exploration",
        "runs": {"quick": 400, "thorough": 10000},
        "rule": "one case per run with at least two threads and a switch inside a call, with the state of the process compared "
        "at bytecodes of the package; distinct by the sequence of (thread, bytecode position, next thread) at all context switches",
        "components": SCHEDULED,
        "assumptions": ["state changed and restored within one bytecode of the package is not seen by other threads"],
    },
    "C18": {
        "level": "exploration",
        "runs": {"quick": 350, "thorough": 8000},
        "rule": "one case per call made in a process started under unusual conditions and compared with the same call in an "
        "ordinary process; distinct by (conditions, function, outcome class)",
        "components": STORAGE + "; real: the interpreter, newly executed for each run with the chosen options, environment, "
        "descriptors, directory, limits and signal dispositions; simulated: clock, entropy, turns of helper threads",
        "assumptions": ["the conditions are those a PyPy interpreter on Linux can be started under"],
    },
    "C19": {
        "level": "exploration",
        "runs": {"quick": 1200, "thorough": 25000},
        "rule": "one case per run with a fault or two threads; distinct by the sequence of (kind of import, fault and place at "
        "which it fired, outcome class) and, with threads, all context switches",
        "components": STORAGE + "; real: the interpreter's import machinery; simulated: the exception raised at the chosen "
        "line, operation, import statement or file of a module, the locks of the import machinery, turns of all threads",
        "assumptions": [
            "modules of NumPy and of the standard library are loaded already",
            "after a failed import the package itself is imported again before one of its modules",
        ],
    },
    "C20": {
        "level": "exploration",
        "runs": {"quick": 900, "thorough": 20000},
        "rule": "one case per run in which at least two threads worked, a storage operation hung and a switch happened inside "
        "a call; distinct by (sequence of context switches, exports that hung)",
        "components": SCHEDULED + "; simulated: a storage operation that does not return until every other thread has "
        "finished its calls or waits",
        "assumptions": ["calls into NumPy and the standard library are atomic, as one bytecode of the package is"],
    },
    "C21": {
        "level": "exploration",
        "runs": {"quick": 700, "thorough": 30000},
        "rule": "one case per run in which the package or modules of it were loaded again; distinct by the sequence of (way of "
        "loading, modules and their order, fault) and (function or kind of query, age of its object in loadings)",
        "components": STORAGE + "; real: the interpreter's import machinery; simulated: the exception raised at the chosen "
        "line, operation, import statement or file of a module",
        "assumptions": ["the files of the package do not change between loadings"],
    },
}
for _facts in FACTS.values():
    _facts["time"] = NO_TIME
