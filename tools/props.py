"""What each check is: used for the evidence files and for MANIFEST.json."""
LIB = ["src/bigfile.c", "src/bigfile-record.c", "src/bigfile-internal.h", "glibc stdio buffering (fopencookie streams)"]
MPI = LIB + ["src/bigfile-mpi.c", "src/mp-mpiu.c"]
DISK = ["storage: in-memory file system behind the libc calls (files, directories, renames; errors, short and torn transfers, limits)", "malloc/realloc/free (real allocator under AddressSanitizer, failures injected)", "clock, getopt, environment, exit, random numbers"]
NET = ["MPI library: simulated message layer (collectives, point to point, derived types)"]
ASSUME = ["AddressSanitizer build with clang -O1; the same sources as shipped, libc and MPI entry points redirected at object level, no hooks in /repo",
          "interleaving granularity: storage, message, lock and (P15) memory-access calls; code between them runs atomically",
          "sampling: a clean batch of runs is evidence, not a proof"]
COV = {"P15", "P30"}
PYTHON = {"P27", "P28", "P32"}
P = {}


def _p(ids, level, technique, note, rule, real, stub, assumptions):
    for i in ids.split():
        P[i] = dict(level=level, technique=technique, note=note, rule=rule, real=real, stub=stub, assumptions=assumptions)


SER = "deterministic simulation: seeded random histories on a simulated disk, reference model"
_p("P01 P02 P03 P04 P05 P06 P07 P08 P09", "exploration", SER,
   "Seeded search over operation histories of the real library on a simulated disk with legal short transfers and shuffled directories; every call is judged against a reference model and every file against an independent decoder of the format. A clean batch is evidence over the sampled histories, not a proof.",
   "Histories of up to about 30 operations (create, open, write, read, seek, grow, flush, close, attributes, list, re-create, restart) over several blocks, files and handles.", LIB, DISK,
   ["one process, calls in program order (concurrency is P14 and P15)"])
_p("P10 P11", "fault_enumeration", "deterministic simulation with injected storage and allocation faults, outcome-based oracle",
   "Faults (errno at the n-th call of a kind inside an operation, lost writes reported by close, full disk, descriptor limit, failed allocations) are drawn by seed; success must mean the effect is on storage, failure must have a cause, and later operations must work. Fault points are sampled, not exhausted.",
   "Fault points: operation, call kind, index of the call, errno, count; drawn per seed.", LIB, DISK, ["a storage call that reports success has stored its data"])
_p("P12", "fault_enumeration", "deterministic simulation with process crashes at storage calls, old-or-new oracle",
   "The process is killed at a seeded storage call (writes may be torn); after the restart each metadata file must be entirely old or entirely new and acknowledged rows must be intact.",
   "Crash points: operation, call kind, index, and how much of a write got out.", LIB, DISK, ["process crash, not power loss: completed writes survive"])
_p("P13", "fault_enumeration", "deterministic simulation with damaged metadata planted on the simulated disk",
   "Headers and attribute files are damaged by seeded mutations before being opened by the real library; it must refuse or give a handle consistent with the file, and never touch memory it does not own (AddressSanitizer).",
   "Damage: truncation, byte edits, number edits, huge counts, missing fields, removed or shortened data files.", LIB, DISK, [])
_p("P14", "exploration", "deterministic simulation of several processes sharing one directory, seeded interleavings",
   "Processes interleave at every storage call under seeded schedules, some crash or suffer faults; the union of their effects must be on storage.",
   "2 to 4 processes on disjoint blocks or disjoint rows of one block.", LIB, DISK, ["POSIX semantics of the shared file system"])
_p("P15", "exploration", "deterministic simulation of threads, preemption at memory accesses, seeded schedules",
   "Threads interleave at instrumented loads and stores of the library and at storage calls, under random, priority and stall schedules; results are compared with each thread's own model.",
   "2 to 4 threads with their own files and blocks.", LIB, DISK, ["sequentially consistent memory; instruction-level preemption at clang's load/store instrumentation"])
_p("P16 P17 P18 P19", "exploration", "deterministic simulation of MPI ranks with seeded schedules and injected faults, serial reference model",
   "Ranks of one job run as tasks in one process over a simulated message layer with seeded scheduling, weak or strong collective synchronisation and injected faults; results are compared with the serial model in rank order, across ranks, and against an occupancy monitor; deadlock is detected when no rank can run.",
   "1 to 9 ranks, thresholds forcing and avoiding aggregation, any number of writers.", MPI, DISK + NET, ["MPI delivers messages reliably and in order per pair, as the standard requires"])
_p("P20", "exploration", "deterministic simulation: record histories, serial and collective, reference model",
   "Random record layouts over random blocks, serial on the simulated disk and across simulated ranks, with faults; results compared with per-field models.",
   "Random record types, field orders, paddings and row ranges.", MPI, DISK + NET, [])
_p("P21 P22", "exploration", "deterministic simulation of the exchange primitives, seeded schedules and message timing",
   "The primitives run on simulated ranks with seeded counts, displacements, schedules and message timing and are compared with their direct definitions.",
   "Random counts, types, displacements, colours and thresholds over 1 to 9 ranks.", ["src/mp-mpiu.c", "src/mp-mpiu.h"], DISK + NET, [])
_p("P23 P24 P25 P26 P29", "fault_enumeration", "deterministic simulation of the command line tools with injected faults, model of each tool",
   "The real main of each tool runs as a simulated process (or MPI ranks) with generated arguments, input and storage faults; exit status, output and resulting blocks are compared with a model of the tool.",
   "Random sources, arguments, buffer sizes and faults.", MPI + ["utils/bigfile-*.c"], DISK + NET, ["exit status as seen by the launcher"])
_p("P30", "fault_enumeration", "deterministic simulation with injected faults, audit of resources whenever nothing is open",
   "The histories of the other workloads, with faults and with everything closed now and then; the simulator owns memory, descriptors, directory streams, communicators and datatypes and compares what each process holds with what it held before its first call.",
   "Plans of P01, P03, P05, P07, P10, P11, P13-P18 and P20-P22 by seed, with closing calls inserted.", MPI, DISK + NET, ["the command line tools and Python are left out: they end with the process, or their memory is the interpreter's"])
_p("P27", "exploration", "deterministic simulation of the Python package on a simulated disk, reference model",
   "The real Cython extension and Python package run on the simulated disk with seeded histories and faults and are compared with a numpy reference model.",
   "Histories of Python operations: blocks, slices, attributes, datasets.", LIB + ["bigfile/pyxbigfile.pyx", "bigfile/__init__.py", "CPython and numpy"], DISK, [])
_p("P32", "exploration", "deterministic simulation of Python threads under a seeded scheduler on a simulated disk",
   "Threads run in one interpreter; a thread can be interrupted at every storage call made without the interpreter's lock and, in half of the runs, at every line of the package. Each thread has a file of its own with a numpy model, all share open columns and a file object for reading.",
   "2 to 4 threads, seeded histories, schedules and faults; switches inside compiled code that holds the lock do not exist.", LIB + ["bigfile/pyxbigfile.pyx", "bigfile/__init__.py", "CPython and numpy"], DISK, ["concurrent creation through one file object is not claimed"])
_p("P28", "exploration", "deterministic simulation of the Python MPI classes on a simulated communicator",
   "The real Python MPI classes run on simulated ranks (threads under a seeded baton) with a simulated communicator.",
   "1 to 6 ranks, seeded schedules, weak or strong broadcasts, faults on any rank.", LIB + ["bigfile/pyxbigfile.pyx", "bigfile/__init__.py", "CPython and numpy"], DISK + ["mpi4py communicator"], [])
