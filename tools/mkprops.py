#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing)."""
import json, os
P = []
C = "src/bigfile.c"; M = "src/bigfile-mpi.c"; U = "src/mp-mpiu.c"; R = "src/bigfile-record.c"
PY = ["bigfile/__init__.py", "bigfile/pyxbigfile.pyx"]
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None,
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

p("P01", "What is read is what was last written",
  "After any sequence of writes and reads through the C interface, reading rows of a block returns, byte for byte, the content of the last successful write covering each row, whatever the number and sizes of its physical files, the transfer-buffer size, the memory layout (dimensions and strides) of the caller's arrays and the handle used. A transfer moves exactly the requested rows and advances the position by exactly that number, and rows it does not address are never changed.",
  ["histories", "configurations", "inputs"],
  "all block shapes and splits into files (including empty files and numbers of rows and bytes beyond 2^32), buffer sizes down to less than one row, contiguous and strided arrays, legal short reads and writes of the storage, and interleavings of writes and reads through several handles",
  "The tests write a few arrays with the default 64 MB buffer, so the chunk loop runs once per file and file-boundary, short-transfer and strided-resume cases are never combined.",
  [C], [("chunked read/write loop", C + ": big_block_read, big_block_write"), ("row to file/offset search", C + ": big_block_seek, big_block_seek_rel"), ("strided iteration", C + ": big_array_iter_advance")],
  ["return value and array of big_block_read / big_block_read_simple", "BigBlockPtr after the call", "data files on the simulated disk"],
  [("foffset/fsize", "start and length in rows of each physical file", "BigBlock in src/bigfile.h")])

p("P02", "Type and byte-order conversion is exact and never alters the source",
  "Transferring between memory and a block of different numeric type or byte order converts every element to the C conversion of its value (4 and 8 byte integers, unsigned integers, floats and complex numbers, either byte order on either side), in every chunk and for every memory layout, and an unsupported pair of types is refused with an error. The caller's source array, and attribute values held in memory, are never modified by writing, reading or formatting them.",
  ["inputs", "configurations", "histories"],
  "all supported and unsupported pairs of element types and byte orders, values including extremes and NaN payload-free floats, row widths, buffer sizes and strides, for rows and for attributes, serial and collective",
  "The tests use native little-endian data with one conversion; conversion happens per chunk inside the storage loop, so errors appear only for particular combinations of types, chunk boundaries and layouts.",
  [C, M], [("convert with in-place swap", C + ": _dtype_convert, byte_swap"), ("cast table", C + ": cast"), ("attribute conversion", C + ": dtype_convert_simple")],
  ["bytes on disk", "caller's arrays after the call", "attribute values read twice"])

p("P03", "Requests outside a block fail and change nothing",
  "A seek, read, write or collective transfer that addresses rows before the start or past the end of a block returns an error with a message and changes neither the stored rows, nor the destination rows of other requests, nor the size of the block; requests that end exactly at the end succeed. A negative seek offset counts from the end, the end-of-file test is true exactly at the end, and the convenience read returns exactly the rows available when asked for more.",
  ["inputs", "histories", "configurations"],
  "all block sizes including empty blocks, all offsets and lengths around file boundaries and the end of the block, serial and collective with any number of ranks",
  "Bounds are checked separately in seek, read, write, the convenience read and each rank of a collective call; tests only exercise requests inside the block.",
  [C, M], [("bounds checks", C + ": big_block_seek, big_block_read, big_block_write, big_block_read_simple"), ("leader seek in collective transfer", M + ": _aggregated")],
  ["return values", "data files on the simulated disk", "caller's arrays"])

p("P04", "Block metadata persists and blocks are isolated",
  "After a block is created and closed or flushed, every later open by any process reports the same element type, row width, per-file sizes and total number of rows, and creating a block under an existing name replaces it completely: nothing of the old rows or old attributes is visible afterwards, and rows not yet written are never returned as data of an earlier block. Creating, writing, growing, flushing or closing one block never changes the metadata, attributes or rows of any other block, including blocks whose names share a prefix or a parent.",
  ["histories", "configurations"],
  "all sequences of create, re-create with other shapes, open, write, grow, flush and close over several blocks, nested names, type spellings and zero-size shapes",
  "Depends on what earlier operations left on disk (stale data files, old attributes); tests create each block once in a fresh directory.",
  [C], [("metadata writing", C + ": _big_block_create_internal, big_block_flush"), ("metadata reading", C + ": _big_block_open"), ("truncation of data files", C + ": _big_block_create")],
  ["fields of the opened handle", "attribute list", "rows read"])

p("P05", "Attributes behave as a persistent map",
  "The attributes of a block (or of the whole file) behave as a map from name to type, count and value: setting replaces, removing deletes, getting returns the value last set converted to the requested type, listing yields every name once in sorted order, and a lookup with another count, an unset name, or a name that is empty or contains blanks is refused without changing the map. The map as of the last successful flush or close is exactly what every later open sees, including removals, zero-length values, long values and many attributes.",
  ["histories", "inputs"],
  "all sequences of set, replace, remove, get, list, flush, close and reopen with names and values of any supported type, count and size, on block and file level",
  "The map lives in a growing packed buffer with relocated pointers and a hand-written text format; failures need particular sizes, counts or orders of replace/remove/flush.",
  [C], [("attribute buffer and list", C + ": attrset_add_attr, attrset_remove_attr, attrset_set_attr"), ("text format", C + ": attrset_write_attr_set_v2, attrset_read_attr_set_v2")],
  ["get / lookup / list results before and after reopening"],
  [("dirty", "the map differs from the disk", "BigAttrSet in src/bigfile.c")])

p("P06", "Growing a block only appends",
  "Growing a block appends exactly the requested rows after the existing ones: all existing rows, checksums and attributes stay as they are, the new total is visible at once in the growing handle and, after flush or close, in every later open. Rows can be written and read across the old end as in one block, any number of times in any mixture with writes, and the new rows never show data of anything stored before.",
  ["histories", "configurations"],
  "all sequences of grow (including zero files and zero rows), write, read, flush, close and reopen, serial and collective",
  "Grow rebuilds the file table and truncates only new files; tests grow once and check one array.",
  [C, M], [("grow", C + ": _big_block_grow_internal, big_block_grow"), ("collective grow", M + ": big_block_mpi_grow")],
  ["sizes in the handle and after reopening", "rows read", "data files on the simulated disk"])

p("P07", "Listing returns exactly the blocks that exist",
  "Listing a file returns the name of every block stored under its root exactly once, as its path relative to the root, at any nesting depth (a block stored inside another block's directory excepted), and nothing else: no intermediate directories, hidden entries or foreign files, whatever the order in which the storage enumerates directories. Every listed name can be opened, and creating a block under a nested name creates all missing parents and succeeds when they already exist.",
  ["histories", "schedules", "configurations"],
  "all trees of blocks, groups, hidden and foreign entries, and all directory enumeration orders",
  "Directory order and entry types are chosen by the file system; a test sees one order on one file system.",
  [C], [("recursive listing", C + ": listbigfile_r, big_file_list"), ("parent creation", C + ": _big_file_mksubdir_r")],
  ["names returned by big_file_list", "directories on the simulated disk"])

p("P08", "Stored checksums equal the sum of the stored bytes",
  "When every row of a block is written exactly once and the block is flushed or closed, the checksum recorded for each physical file equals the sum of all bytes in that file modulo 2^32 and the reduced checksum equals its 16-bit folding. This holds however the writes were split, for any type conversion, across flush, close, reopen and grow in between, after writes that failed and were retried, and for serial and collective writers with any number of ranks.",
  ["histories", "configurations", "fault_sequences"],
  "all partitions of a block into writes, buffer sizes, file splits, flush/reopen/grow points, failed-and-retried writes, and rank counts",
  "Checksums are accumulated incrementally per file and reduced over ranks; no test compares them with the bytes on disk.",
  [C, M] + PY, [("accumulation", C + ": big_block_write, sysvsum"), ("reduction", M + ": big_block_mpi_flush"), ("python reduction", "bigfile/pyxbigfile.pyx: _MPI_flush")],
  ["header file on the simulated disk against the data files"],
  [("fchecksum", "running byte sum of each physical file", "BigBlock in src/bigfile.h")])

p("P09", "The on-disk format is the documented one",
  "A block written by the library can be decoded without it: a text header naming the element type, row width, number of files and one line per file, data files named by six-digit hexadecimal numbers holding the rows contiguously in the declared type and byte order, and a text attribute file with name, type, count and hexadecimal value. Conversely a directory in that format prepared by other software, including big-endian data, file lines in any order, arbitrary blank space, and attributes in the legacy binary format, opens and reads to the same content.",
  ["inputs", "configurations", "histories"],
  "all block shapes, types, byte orders, splits and attribute sets, decoded and encoded by an independent implementation",
  "Round-trip tests cannot notice a change that both the writer and the reader share; files of other versions and machines must stay readable.",
  [C], [("header", C + ": big_block_flush, _big_block_open"), ("attributes", C + ": attrset_write_attr_set_v2, attrset_read_attr_set_v2, attrset_read_attr_set_v1"), ("file names", C + ": _big_file_open_a_file")],
  ["files on the simulated disk", "handles opened on planted files"])

p("P10", "Storage errors are reported and never invented",
  "If a storage call needed by an operation fails - opening, reading, writing or closing a file, creating a directory, no space, I/O error, too many open files, permission denied, allocation of the transfer buffer - then either the operation returns an error with a non-empty message, or its complete promised effect is nevertheless on storage; success is never reported for data or metadata that did not reach it. Conversely no operation fails when no storage call failed, and legal short transfers are not errors.",
  ["fault_sequences", "histories"],
  "all operations of the serial interface, each storage call of each operation and each error it may return, including errors that appear only when a file is closed",
  "Tests run on a healthy disk; an ignored return value is invisible there.",
  [C, R], [("error checks around stdio", C + ": big_block_write, big_block_flush, attrset_write_attr_set_v2"), ("error message", C + ": _big_file_raise")],
  ["return values and error message against the simulated disk"])

p("P11", "After a failure the library stays usable and a retry converges",
  "After an operation failed because of a storage error, the handles and the other blocks remain valid, nothing is leaked that limits later operations (open files), and once the faults stop, repeating the failed operation succeeds and leaves exactly the state that a history without faults would have left - rows, metadata, attributes and checksums. A failed flush or close loses no change that a later flush of the same handle could still write, and a failed grow leaves the block as it was.",
  ["fault_sequences", "histories"],
  "all operations, single and multiple storage faults at any storage call, any number of failed attempts before success, with a small limit on open files",
  "Needs a failure inside an operation followed by further use of the same handle; tests never make storage fail.",
  [C], [("cleanup paths", C + ": ex_* labels of big_block_read, big_block_write, big_block_flush"), ("dirty flags", C + ": big_block_flush, attrset_write_attr_set_v2")],
  ["operation results after the faults stop", "final state on the simulated disk", "number of open files"],
  [("dirty", "metadata differs from the disk", "BigBlock and BigAttrSet")])

p("P12", "A process crash never loses acknowledged data",
  "If the process is killed at any point, everything acknowledged before stays: rows whose write returned success and are not being rewritten at that moment read back unchanged, and a block whose creation, flush or close had returned success can be opened with its acknowledged metadata and attributes - its header is entirely the old or entirely the new one if a flush, close or grow was in progress, and so is its set of attributes, never a mixture inside either or an unreadable remainder. Blocks that the interrupted operation did not concern are unchanged.",
  ["crash_points", "histories"],
  "all histories and every storage call of the operation in progress as the point of death, including in the middle of a write; storage itself keeps what was handed to it",
  "Requires stopping the process between two particular storage calls and inspecting what a new process sees.",
  [C, M], [("metadata replacement", C + ": big_block_flush, attrset_write_attr_set_v2"), ("data writes", C + ": big_block_write")],
  ["what a fresh process opens and reads after the crash"])

p("P13", "Damaged metadata is rejected without memory errors",
  "Opening or listing with a header or attribute file that is truncated, torn, empty, a mixture of two versions, altered at random or filled with extreme numbers either fails with an error message or yields a handle consistent with what the file says; it never reads or writes outside allocated memory, crashes or hangs. Other blocks of the same file stay usable, and re-creating the damaged block succeeds.",
  ["inputs", "crash_points", "fault_sequences"],
  "all single and multiple truncations, byte alterations, line losses and duplications and splices of header, attribute and legacy attribute files",
  "The parsers walk raw buffers by hand; the failing inputs are particular byte positions that no test file has.",
  [C], [("header parser", C + ": _big_block_open"), ("attribute parsers", C + ": attrset_read_attr_set_v2, attrset_read_attr_set_v1")],
  ["return value of opening, memory-error detector, follow-up operations"])

p("P14", "Independent processes working on disjoint data do not disturb each other",
  "Several processes that write disjoint row ranges of the same block through their own handles, create or write different blocks of one file, or create blocks under common missing parents at the same time, each succeed and all their data is there afterwards, for every interleaving of their storage calls. A process that opens or lists while another flushes or closes sees a complete old or new header of each block and a complete old or new set of its attributes.",
  ["schedules", "histories"],
  "all interleavings of the storage calls of two to four processes",
  "The operating system picks one interleaving per run; the windows between two calls are microseconds.",
  [C], [("directory creation race", C + ": _big_file_mkdir"), ("in-place positioned writes", C + ": big_block_write"), ("metadata replacement", C + ": big_block_flush")],
  ["rows, metadata and listing after all processes ended", "results of concurrent opens"])

p("P15", "Threads can share a block for reading and handle errors independently",
  "Threads of one process may read the same block handle, use distinct handles, and run into errors at the same time: every read returns the right rows, every failing call returns an error, the error text a thread obtains is a complete, valid message of a failure that happened, and no schedule causes a crash, a memory error or a lost update of unrelated state.",
  ["schedules", "histories"],
  "all interleavings, at the level of memory accesses, of two to four threads reading, writing distinct blocks and raising errors",
  "Data races on the shared error text show up only under particular preemptions.",
  [C], [("error message storage", C + ": _big_file_raise, big_file_set_error_message"), ("read path without shared mutable state", C + ": big_block_read")],
  ["results of each thread, message text, memory-error detector"])

p("P16", "Collective transfers equal the serial transfer in rank order",
  "A collective write leaves on storage exactly what one process would leave by writing the ranks' arrays one after the other in rank order from the given position, and a collective read gives each rank exactly its consecutive share, for every number of ranks, distribution of rows (including ranks with none), concurrency limit, aggregation threshold, element type and memory layout on each rank. Afterwards the position on every rank has advanced by the total number of rows, for every schedule of the ranks and every legal behaviour of the message layer.",
  ["schedules", "configurations", "histories"],
  "all rank counts up to 16, row distributions, concurrency and aggregation settings, per-rank layouts and types, rank schedules, and eager or synchronising message delivery",
  "Segmentation into groups depends on the distribution of sizes; tests use two ranks with equal shares and whichever schedule happens.",
  [M, U], [("throttled segments", M + ": _throttle_action"), ("aggregation", M + ": _aggregated"), ("segment assignment", U + ": MPIU_Segmenter_init")],
  ["data files on the simulated disk", "arrays and positions of all ranks"])

p("P17", "Collective metadata operations leave all ranks and storage in agreement",
  "After a collective create, open, grow, flush or close returns, every rank holds the same block description - type, row width, file sizes, total rows and attributes - equal to the requested one, and storage holds it too once flushed, exactly as the serial operation would have produced: physical files exist and are empty, and rows of an evenly split request add up to the requested total. What the root rank set as attributes or any rank wrote before a flush is on storage after it, for every rank count and schedule. A process that was given MPI_COMM_NULL takes no part: every collective call succeeds there without effect.",
  ["schedules", "configurations", "histories"],
  "all rank counts up to 16, shapes with fewer and more files than ranks, sequences of collective operations, and schedules",
  "Creation of files is distributed over ranks and state is rebuilt by broadcast; tests run two ranks with one shape.",
  [M, C], [("broadcast of the handle", M + ": big_block_mpi_broadcast, _big_block_pack"), ("distributed creation", M + ": _big_block_mpi_create, big_block_mpi_grow"), ("flush at the root", M + ": big_block_mpi_flush")],
  ["handles of all ranks", "files on the simulated disk"])

p("P18", "Collective errors reach every rank and never cause a hang",
  "If a storage error or an invalid request hits any subset of ranks during a collective operation, the operation returns on every rank, with a nonzero result and the same non-empty error message everywhere; if it succeeds anywhere it succeeds everywhere and its effect is complete. No distribution, schedule, message timing or fault makes a collective operation deadlock or use mismatched collective calls, and the communicator and the library remain usable afterwards.",
  ["fault_sequences", "schedules", "configurations"],
  "all collective operations, storage faults at any storage call of any subset of ranks, invalid requests, rank counts, distributions and schedules",
  "A rank that leaves early or takes another branch hangs the job only for particular combinations of failing rank, group layout and timing.",
  [M, R], [("error agreement", M + ": big_file_mpi_broadcast_anyerror"), ("abort of remaining segments", M + ": _throttle_action")],
  ["return value and message on each rank", "deadlock and collective-mismatch detector of the simulated message layer"])

p("P19", "At most the requested number of ranks touches data files at once",
  "During a collective read or write with concurrency limit N (N > 0), at no moment are more than N ranks performing data-file input or output, whatever the distribution of rows, the aggregation threshold and the schedule; without a limit all ranks may. Within one segment only one rank accesses storage, and a segment never mixes up the order of ranks.",
  ["schedules", "configurations"],
  "all rank counts up to 16, row distributions, limits, thresholds and schedules, including ranks that stall inside storage calls",
  "A violation needs a schedule in which ranks of different segments overlap; results on disk are right either way.",
  [M, U], [("group barrier and segment loop", M + ": _throttle_action"), ("grouping", U + ": MPIU_Segmenter_init")],
  ["set of ranks with an open data file at each simulated step"])

p("P20", "Record transfers equal field-by-field transfers",
  "Writing a buffer of records stores, for each field, exactly that field's values of each record in the block of that name at the given rows, and reading fills exactly the fields of exactly the requested records, also when type or byte order of a block differs from the field, serial and collective. Creating makes one block per field with the requested split, appending grows every field by the same rows and keeps the old ones, and an unknown mode, a missing field or a range outside is refused with an error. The fields of a record type may be defined in any order, and again, before it is completed.",
  ["histories", "configurations", "inputs"],
  "all record layouts with scalar and vector fields, sizes, offsets, splits, buffer sizes, rank counts and schedules",
  "The strided view of a packed record goes through the general conversion; tests cover one record type with one layout.",
  [R, M], [("field view", R + ": big_record_view_field, big_record_type_complete"), ("per-field loops", R + ": big_file_write_records, big_file_read_records; " + M + ": big_file_mpi_write_records")],
  ["blocks on the simulated disk", "record buffers"])

p("P21", "Exchange primitives deliver every item exactly once to the right place",
  "The variable all-to-all exchange, in its dense, sparse and automatic form and with given or default displacements, and the variable gather and scatter, deliver every item exactly once, in order, to the rank and place the counts say, write nothing else, and report the right totals - for every rank count (also not a power of two), counts including zero, root and schedule. The locate-minimum/maximum helper returns on every rank the lowest rank holding the extreme value.",
  ["schedules", "inputs", "configurations"],
  "all rank counts up to 16 (and beyond the automatic dense threshold of 128), count matrices, item sizes, roots, delivery orders and eager or synchronising sends",
  "Message matching and completion order are chosen by the message library; no test calls these functions directly.",
  [U], [("exchange", U + ": MPIU_Alltoallv, MPI_Alltoallv_sparse"), ("gather/scatter", U + ": MPIU_Gather, MPIU_Scatter"), ("locate", U + ": MPIU_GetLoc")],
  ["receive buffers, guard areas and return values on each rank"])

p("P22", "Segments partition the ranks consistently and within bounds",
  "Dividing ranks into segments and groups gives every rank with data a segment such that segments are runs of consecutive ranks numbered in rank order, no segment exceeds the requested size by more than the share of one rank, the number of groups with data never exceeds the requested one, and the segments of a group are consecutive and belong to that group only. All members of a segment or group agree on its members and leader, the group leader holds the most and the segment leader the least data, the collected offsets and total are the prefix sums, and ranks without data never share a group with ranks that have data.",
  ["schedules", "inputs", "configurations"],
  "all size distributions (also a secondary size), group counts, size limits, rank counts up to 16 and schedules",
  "Pure index arithmetic over distributions plus communicator splits; tests see two equal ranks.",
  [U], [("colouring", U + ": _MPIU_Segmenter_assign_colors"), ("groups and leaders", U + ": MPIU_Segmenter_init"), ("offsets", U + ": MPIU_Segmenter_collect_sizes")],
  ["segmenter fields and communicator membership on each rank"])

p("P23", "Copy tools reproduce a block faithfully or fail visibly",
  "Copying a block with the serial or the parallel copy tool yields a block with the same type, row width, rows and attributes (split into the requested number of files) and leaves the source unchanged, for every buffer size, number of processes (two or more for the parallel tool) and schedule of its workers. If the copy could not be completed because storage failed, the tool ends with a nonzero status and a message instead of reporting success, and it never hangs.",
  ["schedules", "fault_sequences", "configurations", "inputs"],
  "all block shapes and attribute sets, file counts, buffer sizes, worker counts, message and scheduling orders, and storage faults in any process",
  "Work is handed out to whichever worker asks first and errors travel by message; no test runs the copy tools.",
  ["utils/bigfile-copy.c", "utils/bigfile-copy-mpi.c", C, M], [("serial copy", "utils/bigfile-copy.c: main"), ("server and workers", "utils/bigfile-copy-mpi.c: server, slave")],
  ["exit status of the tool, source and target blocks on the simulated disk"])

p("P24", "Import and dump tools move exactly the given rows",
  "The import tool stores exactly the complete rows of its input as a block of the given type and width, and the dump tool prints exactly the requested range of rows - all when no count is given, fewer at the end - once and in order, in binary or as text, for every buffer size, file split and way the input arrives in pieces. If reading or writing fails, the tool ends with a nonzero status instead of reporting success.",
  ["inputs", "fault_sequences", "configurations"],
  "all shapes, types, offsets, counts, buffer sizes, short reads of the input stream and storage faults",
  "Each tool has its own chunk loop; no test runs them.",
  ["utils/bigfile-create.c", "utils/bigfile-cat.c", C], [("import loop", "utils/bigfile-create.c: main"), ("dump loop", "utils/bigfile-cat.c: main")],
  ["exit status and output of the tool, block on the simulated disk"])

p("P25", "Attribute and listing tools change and show exactly what they are asked to",
  "The set-attribute tool changes exactly the named attribute to the given values (also when type or count are taken from an existing attribute or from the arguments), leaves every other attribute and all rows untouched, and ends with a nonzero status and no change when the arguments do not fit; if storage fails it ends with a nonzero status and the attributes are entirely the old or entirely the new ones. The get-attribute tool shows the stored type, count and values, and the list tool every readable block once with the stored type, width, size, combined checksum and file count; viewing tools change nothing on storage.",
  ["inputs", "fault_sequences", "histories"],
  "all attribute types, counts and values, option combinations, trees of blocks, and storage faults",
  "No test runs these tools; the argument handling decides sizes of buffers and which attribute is rewritten.",
  ["utils/bigfile-set-attr.c", "utils/bigfile-get-attr.c", "utils/bigfile-ls.c", C], [("set", "utils/bigfile-set-attr.c: main"), ("get", "utils/bigfile-get-attr.c: print_attr"), ("list", "utils/bigfile-ls.c: listbigblock")],
  ["exit status and output of the tools, attribute files on the simulated disk"])

p("P26", "Parallel sampling is reproducible and draws only existing rows",
  "The parallel sampling tool produces the same block for the same source and ratio whatever the number of processes and the schedule: rows of the source in source order, each at most once, with the source's attributes, type and width; a ratio of one reproduces the source. Failures of storage end with a nonzero status, and no schedule hangs the tool.",
  ["schedules", "configurations", "fault_sequences"],
  "all sources, ratios, file counts, process counts from two up, message and scheduling orders, and storage faults",
  "The result must not depend on which worker gets which chunk, and no test runs the tool.",
  ["utils/bigfile-sample-mpi.c", C, M], [("seeded chunks", "utils/bigfile-sample-mpi.c: server, filesize"), ("selection", "utils/bigfile-sample-mpi.c: slave")],
  ["exit status and target block for different process counts and schedules"])

p("P27", "Python columns, attributes and datasets follow the C semantics",
  "Through the Python interface, a column behaves as an array of its type on storage: indexing, slicing, reading and writing (contiguous or strided arrays, any byte order), appending, creating from an array, attributes of text and numbers, listing, subfiles and pickling of open columns and files return exactly what an in-memory model returns, before and after reopening. Requests that make no sense (indices that are not rows, steps, arrays of another length, negative sizes, read-only destinations, files that are not there) are refused and change nothing. A storage error surfaces as an exception, never as silently missing data or a crash of the interpreter, and afterwards the objects remain usable.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of operations on files, columns, attributes and datasets over several blocks (also with more than 2^32 rows), with storage faults at any call",
  "The tests are single examples on a healthy disk; the interplay of cached listings, stale handles, pickles and failing storage is a matter of histories.",
  PY + [C], [("column", "bigfile/pyxbigfile.pyx: ColumnLowLevelAPI"), ("attributes", "bigfile/pyxbigfile.pyx: AttrSet"), ("dataset", "bigfile/__init__.py: Dataset"), ("create_from_array", "bigfile/__init__.py: File.create_from_array")],
  ["values and exceptions of the Python calls", "files on the simulated disk"])

p("P28", "Python MPI files agree on all ranks",
  "Files and columns opened with a communicator behave collectively: creating, opening, writing each rank's share, creating from distributed arrays, flushing and closing leave one consistent block on storage - rows in rank order, right size and checksums, the root's attributes - and every rank sees the same list of blocks and the same column description. Inconsistent names are refused on every rank, and an error on one rank raises an exception on every rank instead of a hang, for every schedule.",
  ["schedules", "fault_sequences", "configurations"],
  "all rank counts up to 6, distributions, column sizes (also beyond 2^32 rows), sequences of collective operations, schedules, and storage faults on any rank",
  "The tests run on one and two ranks with one schedule and a healthy disk.",
  PY + [C], [("collective column", "bigfile/__init__.py: ColumnMPI, FileMPI"), ("flush", "bigfile/pyxbigfile.pyx: _MPI_flush, _MPI_broadcast")],
  ["values, exceptions and block state on each rank", "files on the simulated disk"])

p("P29", "The I/O benchmark stores and verifies the row numbers",
  "bigfile-iosim run by any number of processes, with any number of writers, files, rows and columns, aggregated or not, leaves a block whose row k holds k in every column: create makes it with the requested shape and rows spread evenly, update rewrites every row of an existing block, grow appends rows that continue the numbering and leaves the earlier ones alone. Its read mode ends with status 0 exactly when every row holds its number. An operation that fails on any process ends the job with a nonzero status and a message, never with a hang, and -p removes the block and nothing else.",
  ["inputs", "schedules", "fault_sequences"],
  "all modes, options, rank counts, existing blocks of any integer or floating type, histories of runs by different numbers of processes, schedules and storage faults on any process",
  "The tests run one creation and five reads with 4 and 8 processes on a healthy disk; the staggered layout depends on the rank count, and failures were not reported at all.",
  ["utils/bigfile-iosim.c", M], [("modes, staggered layout and verification", "utils/bigfile-iosim.c: iosim"), ("options and purge", "utils/bigfile-iosim.c: main")],
  ["exit status and output of the job", "blocks, time logs and everything else on the simulated disk"])

p("P30", "Calls give back the resources they take, also when they fail",
  "Once everything a program opened is closed, the library holds nothing more than before the first call, whatever happened in between: no memory, open file, directory stream, communicator, datatype or pending request, on any rank, process or thread, whether the calls succeeded, were refused or failed halfway, and whether the caller closes only what was opened or created successfully (a failed open or create leaves nothing to close). The exchange primitives and the segmenter hold nothing between calls once the segmenter is destroyed. Only the text of the last error of a thread may remain.",
  ["inputs", "schedules", "fault_sequences"],
  "all histories of the other properties (serial, records, damaged metadata, collectives, primitives, threads, processes) with faults at any storage call or large allocation, everything being closed now and then",
  "Tests run few calls on a healthy disk and look at no resource; a leak on an error path or of one communicator per transfer only ends a job after thousands of calls.",
  [C, M, U, R], [("failed open and create", C + ": _big_block_open, _big_block_create_internal, big_file_create"), ("collective failure", M + ": _big_block_mpi_create, big_file_mpi_create"), ("communicators and datatypes", M + ": _throttle_action, _aggregated; " + U + ": MPIU_Segmenter_destroy"), ("closing", C + ": _big_block_close_internal")],
  ["what each simulated process holds whenever nothing is open"])

p("P31", "The shell scripts check, rename, remove and repartition blocks safely",
  "bigfile-check accepts a block exactly when the sum of its bytes is the one bigfile-ls reports; bigfile-rename, bigfile-rm and bigfile-repartition change the named blocks and nothing else, and a step that fails leaves the data in one of its two places.",
  ["inputs", "fault_sequences"],
  "all block names, numbers of files, and failures of any of the programs the scripts start",
  "No test runs the scripts.",
  ["utils/bigfile-check", "utils/bigfile-rename", "utils/bigfile-rm", "utils/bigfile-repartition"], [("jobs in the background", "utils/bigfile-repartition: repart; utils/bigfile-check: check")],
  ["exit status and directories"])

p("P32", "Python threads share open columns and do not disturb each other",
  "Threads of one Python program may read, list and look up attributes through the same open columns and file object, and write, append to and create blocks through objects of their own, at the same time: every read, list and attribute is what a single thread would get, every write arrives, a call that fails raises an exception in the thread that made it, with the text of its own failure, and objects may be closed or forgotten in any thread. The interpreter neither crashes nor stops.",
  ["schedules", "fault_sequences", "histories"],
  "2 to 4 threads, all histories of operations on own objects and of reads on shared ones, every interleaving at storage calls and at lines of the package, with storage faults in any thread",
  "The calls give up the interpreter's lock during input and output, so threads really interleave there; the tests use one thread.",
  PY + [C], [("lock given up", "bigfile/pyxbigfile.pyx: with nogil blocks of ColumnLowLevelAPI and FileLowLevelAPI"), ("text of the failure", "bigfile/pyxbigfile.pyx: Error; " + C + ": _big_file_raise")],
  ["values and exceptions in each thread", "files on the simulated disk"])

os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
