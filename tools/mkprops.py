#!/usr/bin/env python3
"""Writes properties.jsonl (one source for ids, titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "Parsing any trace text is memory-safe and terminates",
  "For every NUL-terminated byte string, every text parser of the library (GDB backtraces and their threads, frames, names and shared-library tables, kernel oopses, Python, Ruby, Java and JavaScript traces) returns without touching memory outside the input and its own live allocations, without undefined behaviour, without aborting and within bounded CPU time. The cursor it leaves never lies past the terminator, and an unsuccessful parse of a whole stacktrace yields no object but an error message (a kernel log without any frame gives an empty stacktrace rather than a failure). Reading values that were never set counts as undefined behaviour.",
  ["inputs"], "all byte strings, with nesting depth and size up to the 20 MB file limit",
  "The tests parse a few dozen well-formed or slightly broken files, uninstrumented; out-of-bounds reads past the terminator and unbounded recursion are invisible to them.",
  ["lib/gdb_frame.c", "lib/gdb_thread.c", "lib/gdb_stacktrace.c", "lib/gdb_sharedlib.c", "lib/koops_frame.c", "lib/koops_stacktrace.c", "lib/python_frame.c", "lib/python_stacktrace.c", "lib/ruby_frame.c", "lib/ruby_stacktrace.c", "lib/java_frame.c", "lib/java_thread.c", "lib/java_stacktrace.c", "lib/js_frame.c", "lib/js_stacktrace.c", "lib/utils.c"],
  [("recursive-descent parsers over a const char ** cursor", "lib/gdb_frame.c"), ("bounded scanning primitives", "lib/utils.c")])

p("C02", "Decoding any JSON document is memory-safe and fails only with a message",
  "For every text, decoding it as a stacktrace of any type, as a report, or as a package list, operating system or JavaScript platform returns without memory errors, undefined behaviour, abort or unbounded work, whether or not the caller asked for an error message. A decode either succeeds, giving an object that can be encoded, compared, hashed, duplicated and freed safely, or it returns no object and sets a non-empty message; text that the JSON reader cannot read as a value and values of the wrong JSON type for a field are always refused.",
  ["inputs"], "all texts: valid documents with any field missing, null, retyped, huge or duplicated, and arbitrary bytes",
  "Tests decode a few valid documents and a handful of wrong ones; the space of missing/retyped/huge fields in every decoder is never swept and nothing watches memory.",
  ["lib/json_utils.c", "lib/json_utils.h", "lib/gdb_stacktrace.c", "lib/core_stacktrace.c", "lib/core_thread.c", "lib/core_frame.c", "lib/java_stacktrace.c", "lib/java_thread.c", "lib/java_frame.c", "lib/koops_stacktrace.c", "lib/koops_frame.c", "lib/python_stacktrace.c", "lib/ruby_stacktrace.c", "lib/js_stacktrace.c", "lib/js_platform.c", "lib/report.c", "lib/rpm.c", "lib/operating_system.c"],
  [("typed JSON accessors", "lib/json_utils.h"), ("per-type from_json", "lib/*_stacktrace.c")])

p("C03", "Stacktrace JSON is strict JSON and round-trips losslessly",
  "For every stacktrace of the types that have a JSON form (core, Java, kernel oops, Python, Ruby, JavaScript; GDB has none beyond its encoder's contract), encoding produces one well-formed JSON document per RFC 8259 whatever the strings hold (bytes above 0x7f pass through unchanged) and whichever fields are absent, and the document states every field the format defines with its exact value. Decoding that document gives a stacktrace with the same fields, threads and frames in the same order (a core thread's id is not part of the format), and encoding it again gives the same text.",
  ["inputs"], "all stacktraces: any number of threads and frames, any subset of fields set, control characters, quotes and non-ASCII bytes in strings, full-range integers",
  "Tests compare a few golden documents; empty objects, control characters, 64-bit extremes and absent fields are not among them.",
  ["lib/json_utils.c", "lib/utils.c", "lib/core_stacktrace.c", "lib/core_thread.c", "lib/core_frame.c", "lib/java_stacktrace.c", "lib/java_thread.c", "lib/java_frame.c", "lib/koops_stacktrace.c", "lib/koops_frame.c", "lib/python_stacktrace.c", "lib/python_frame.c", "lib/ruby_stacktrace.c", "lib/ruby_frame.c", "lib/js_stacktrace.c", "lib/js_frame.c", "lib/js_platform.c"],
  [("hand-written encoders with string escaping", "lib/json_utils.c"), ("json-c based decoders", "lib/*_stacktrace.c")])

p("C04", "A report's JSON is well-formed, complete and decodes to the same report",
  "For every report, encoding yields well-formed JSON containing the version, reporter, problem type, user flags, component, serial/crash count, operating system, packages with roles and the stacktrace data, and the stored authentication entries, each with its exact value. Decoding it gives a report with the same content, for every problem type that carries a stacktrace.",
  ["inputs"], "all reports over every problem type, any subset of optional parts, any strings",
  "Tests check golden files for one or two types and never vary names, versions, flags or strings needing escapes.",
  ["lib/report.c", "lib/rpm.c", "lib/operating_system.c", "lib/json_utils.c"],
  [("report encoder/decoder", "lib/report.c")])

p("C05", "Copies are deep, equal and independent of their source",
  "Duplicating any stacktrace, thread, frame or distance object yields an object equal to the source in every field, with the same threads, frames, libraries and modules in the same order and with internal references (such as the crashing thread) pointing into the copy. Changing or freeing either one never affects the other, and a duplicate made without siblings is detached from the source's list.",
  ["inputs", "histories"], "all stacktraces of all seven types and every order of modifying and freeing source and copy",
  "Tests duplicate one small object per type and compare two or three fields.",
  ["lib/gdb_stacktrace.c", "lib/gdb_thread.c", "lib/gdb_frame.c", "lib/gdb_sharedlib.c", "lib/core_stacktrace.c", "lib/core_thread.c", "lib/core_frame.c", "lib/java_stacktrace.c", "lib/java_thread.c", "lib/java_frame.c", "lib/koops_stacktrace.c", "lib/koops_frame.c", "lib/python_stacktrace.c", "lib/ruby_stacktrace.c", "lib/js_stacktrace.c", "lib/generic_stacktrace.c", "lib/generic_thread.c", "lib/distance.c"],
  [("*_dup functions", "lib/*_stacktrace.c")])

p("C06", "Frame, thread and trace comparison is a consistent, field-sensitive ordering",
  "Comparing any two frames of one type, or any two threads, is reflexive, antisymmetric in sign and transitive, so it can drive sorting. It reports equality exactly when all fields the type documents as compared are equal (thread comparison: all frames pairwise and the number of frames), for every value of the fields including 64-bit extremes and absent strings; the distance comparison reports equality exactly by the fields it documents as compared.",
  ["inputs"], "all triples of frames or threads of a type, any field values",
  "Tests compare a couple of pairs; ordering laws quantify over triples and over values beyond int range.",
  ["lib/gdb_frame.c", "lib/gdb_thread.c", "lib/core_frame.c", "lib/core_thread.c", "lib/java_frame.c", "lib/java_thread.c", "lib/koops_frame.c", "lib/koops_stacktrace.c", "lib/python_frame.c", "lib/ruby_frame.c", "lib/js_frame.c", "lib/generic_thread.c", "lib/generic_frame.c"],
  [("cmp and cmp_distance methods", "lib/*_frame.c")])

p("C07", "Thread distances equal their mathematical definitions",
  "For any two threads of one type the Levenshtein and Damerau-Levenshtein distances equal the (restricted) edit distance over frames divided by the longer length, the Jaccard distance equals one minus intersection over union of the frame sets, and the Jaro-Winkler similarity equals the library's definition of it, with the frame equality of the type's distance comparison. Threads of different types are at the maximum distance, two empty threads are not distant, values lie in [0,1] for the edit and Jaccard distances, which are symmetric and zero for equal threads without unknown functions, and comparing never modifies the threads beyond the documented normalisation of unknown functions done on copies.",
  ["inputs"], "all pairs of threads, any lengths including zero and repeated frames",
  "Tests check some tens of hand-computed pairs; the quantifier is over all pairs.",
  ["lib/distance.c", "lib/normalize.c", "lib/generic_frame.c"],
  [("dynamic programming and set scan", "lib/distance.c")])

p("C08", "Distance matrices are exact and split computation equals the whole",
  "For any list of threads the distance matrix holds at each (row, column) exactly the distance of that pair, reads are symmetric with a zero diagonal, and rows are limited as requested. Splitting the computation into any number of parts covers every pair exactly once, and merging all computed parts in any order yields the same matrix; merging parts that are incomplete, duplicated or from inputs of different number, thread lengths or metrics is refused.",
  ["inputs", "histories"], "all thread lists, row counts, part counts, part orders and mixtures",
  "Tests merge a few splits of one list in order.",
  ["lib/distance.c"], [("triangular storage, part ranges and checksums", "lib/distance.c")])

p("C09", "Clustering builds the average-linkage dendrogram and cuts partition it",
  "For any distance matrix the dendrogram is the average-linkage agglomeration: its order is a permutation of the objects and its merge levels are those of the hierarchical clustering. Cutting it at any level yields disjoint clusters consisting exactly of the maximal groups joined at or below that level which reach the minimum size, each listing its members.",
  ["inputs"], "all distance matrices (n up to tens of objects), cut levels and minimum sizes",
  "Tests use three or four matrices.",
  ["lib/cluster.c"], [("nearest-pair agglomeration and level scan", "lib/cluster.c")])

p("C10", "GDB backtraces are parsed to exactly the threads and frames they show",
  "For every backtrace in GDB's output format, parsing yields one thread per 'Thread' header with its number and LWP id, and one frame per '#N' line with its number, address, function name, function type, source file, line and signal-handler mark exactly as printed, in order, plus the crash frame and the shared libraries. Wrapped lines, C++ names (templates, operators, anonymous namespaces, casts), nested argument lists and quoted strings in arguments do not disturb neighbouring frames.",
  ["inputs"], "all texts of the GDB backtrace grammar",
  "Tests hold a fixed set of files and names; the grammar's combinations are unbounded.",
  ["lib/gdb_stacktrace.c", "lib/gdb_thread.c", "lib/gdb_frame.c", "lib/gdb_sharedlib.c"],
  [("recursive-descent grammar", "lib/gdb_frame.c")])

p("C11", "Kernel oopses are parsed to exactly the frames, modules and taints they show",
  "For every oops in the supported kernel formats (x86, with or without timestamps, brackets, reliability marks, 'from' functions and IRQ/EOI/NMI stack sections, ARM, s390, ppc) parsing yields each frame's address, function, offset, length, module, reliability and special-stack section, every linked module, exactly the taint flags printed and the reason line. Unrelated log lines around and between do not create or drop frames.",
  ["inputs"], "all texts of the oops grammar: frame forms, section nesting, module and taint sets",
  "Tests hold a fixed set of oops files.",
  ["lib/koops_stacktrace.c", "lib/koops_frame.c"], [("line-oriented oops parser", "lib/koops_stacktrace.c")])

p("C12", "Python, Ruby, Java and JavaScript traces are parsed to exactly what they show",
  "For every trace printed by the CPython, Ruby, JVM and V8 (Node.js) runtimes in their supported formats, parsing yields the exception name and, innermost frame first, one frame per printed frame with its file, line, column, function or method, class path, block/rescue level, nativeness, message and special markers exactly as printed, including SyntaxError locations and chained Java causes.",
  ["inputs"], "all texts of the four trace grammars",
  "Tests hold a fixed set of files per language.",
  ["lib/python_stacktrace.c", "lib/python_frame.c", "lib/ruby_stacktrace.c", "lib/ruby_frame.c", "lib/java_stacktrace.c", "lib/java_thread.c", "lib/java_frame.c", "lib/js_stacktrace.c", "lib/js_frame.c", "lib/js_platform.c"],
  [("per-runtime parsers", "lib/*_stacktrace.c, lib/*_frame.c")])

p("C13", "The crash thread found is the thread that crashed",
  "For every stacktrace the crash thread is the one its data designates: for GDB the only thread, else the thread with the recorded crash TID, else the single thread whose top frame has the crash frame's function, else the single one of those containing an abort frame, else a deterministic choice among those, and none when nothing designates one; for core stacktraces the recorded crash thread, else the only thread, else the first thread with an abort frame; for single-threaded formats the trace itself; for Java the first thread. The crash frame returned for a GDB trace is the top frame of the crash thread after removing the abort machinery, and is unaffected by later changes.",
  ["inputs"], "all multi-threaded stacktraces and crash designations",
  "Tests try a handful of stacktraces, mostly with the designated thread first.",
  ["lib/gdb_stacktrace.c", "lib/core_stacktrace.c", "lib/generic_stacktrace.c", "lib/java_stacktrace.c", "lib/normalize.c"],
  [("find_crash_thread", "lib/gdb_stacktrace.c")])

p("C14", "Normalisation removes and rewrites only the documented frames",
  "For every GDB, core or kernel-oops thread, normalisation keeps the remaining frames in order and unchanged except for documented rewrites (function-name aliases and stripped suffixes/prefixes), drops everything at and above abort/assert frames, drops frames below known program exits and entry points, and removes frames of the documented libc, libstdc++, X11, glib and kernel helper functions. It also removes at most one null-address frame at each end and merges consecutive frames of the same function. Threads without such frames are left untouched; core normalisation also replaces user names in paths and nothing else; normalising again only applies the same rules.",
  ["inputs"], "all threads built from documented and ordinary function names at every position",
  "Tests normalise a few traces and compare goldens; removal rules interact by position.",
  ["lib/normalize.c", "lib/normalize_hash.gperf", "lib/koops_stacktrace.c", "lib/generic_thread.c"],
  [("removal tables and exit-frame search", "lib/normalize.c")])

p("C15", "Duplicate hashes depend exactly on the documented crash identity",
  "The duplicate hash of a thread is the SHA-1 (or the plain text when unhashed) of the given prefix, the documented header and one line per normalised frame up to the frame limit; it never modifies the thread. Threads equal in those lines hash equal regardless of addresses, numbers, argument data or frames beyond the limit, threads differing in a hashed line within the limit hash differently, and in the kernel-oops compatible format a thread with no usable frame has no hash.",
  ["inputs", "configurations"], "all threads, prefixes, frame limits and flag combinations",
  "Tests check one golden hash per type.",
  ["lib/generic_thread.c", "lib/gdb_frame.c", "lib/core_frame.c", "lib/core_thread.c", "lib/java_frame.c", "lib/koops_frame.c", "lib/koops_stacktrace.c", "lib/python_frame.c", "lib/ruby_frame.c", "lib/js_frame.c"],
  [("get_duphash over duplicate_hash text", "lib/generic_thread.c")])

p("C16", "Backtrace hashes cover the whole stacktrace deterministically",
  "The backtrace hash of a stacktrace is the SHA-1 (or plain text) of a canonical rendering of its type-specific header and of every thread and frame in order; equal stacktraces always hash equal, independent of memory layout or earlier calls, and hashing never changes the stacktrace. Changing, adding, removing or swapping a thread, frame or any rendered field changes the hash (not rendered: the label of a kernel special stack, the function name of a core frame, the column of a JavaScript frame).",
  ["inputs"], "all stacktraces and all single-field or structural edits",
  "Tests check one golden hash per type.",
  ["lib/generic_stacktrace.c", "lib/generic_thread.c", "lib/gdb_stacktrace.c", "lib/core_stacktrace.c", "lib/koops_stacktrace.c", "lib/java_stacktrace.c", "lib/python_stacktrace.c", "lib/ruby_stacktrace.c", "lib/js_stacktrace.c"],
  [("get_bthash with per-type append methods", "lib/generic_stacktrace.c")])

p("C17", "Home-directory user names never leave through parsed traces",
  "Every file path under /home/<user>/ that the library puts in parsed Python, Ruby, Java and JavaScript frames or in normalised core threads has the user component replaced by a fixed placeholder while the rest of the path is kept intact; all other paths are kept byte for byte. The replacement is idempotent. GDB and kernel traces are not anonymised by design.",
  ["inputs"], "all paths in all frame positions of the four parsers and the core normaliser",
  "Tests check one path per language.",
  ["lib/utils.c", "lib/java_frame.c", "lib/python_frame.c", "lib/ruby_frame.c", "lib/js_frame.c", "lib/normalize.c"],
  [("path anonymiser", "lib/utils.c")])

p("C18", "Frame and thread list surgery removes exactly what was asked",
  "Removing a frame, the frames above one, the frames below a depth, all threads but one, or limiting frame depth changes exactly the requested list elements, keeps the rest in order and intact, frees each removed element once and reports failure without change when the element is not there. Counts, concatenations and lookups agree with the list's real content after any sequence of such operations.",
  ["inputs", "histories"], "all operation sequences on all thread/frame lists",
  "Tests apply single operations on two- or three-element lists.",
  ["lib/generic_thread.c", "lib/gdb_thread.c", "lib/gdb_stacktrace.c", "lib/java_thread.c", "lib/koops_stacktrace.c", "lib/gdb_sharedlib.c"],
  [("list unlinking", "lib/generic_thread.c")])

p("C19", "RPM package names, ordering and lists are handled exactly",
  "Parsing name-version-release and name-[epoch:]version-release.arch text yields exactly the parts or fails without leaving anything behind; parts recompose to the input. Package comparison is a total preorder over name, epoch, version, release, architecture and the remaining documented fields, sorting returns an ordered permutation of the list, and uniquing merges exactly the equal neighbours; package JSON states every field and role and decodes to the same list.",
  ["inputs"], "all package texts and lists, including full-range epochs and install times",
  "Tests parse two names and sort three packages.",
  ["lib/rpm.c", "lib/abrt.c"], [("rpm text/JSON/list functions", "lib/rpm.c")])

p("C20", "Operating-system descriptions are extracted exactly",
  "For every os-release text, each assignment line yields its key and unquoted, unescaped value in order, comments and malformed lines are skipped, and the operating system's name, version, CPE and variant are derived by the documented rules (rolling releases, known vendor names; the last ID, CPE_NAME and VARIANT_ID and the first VERSION_ID count, and a VERSION naming Rawhide overrides the latter); for every system-release line the name and version are extracted by the documented rules. Operating-system JSON is well-formed and decodes to the same description.",
  ["inputs"], "all os-release and system-release texts",
  "Tests hold a few release files.",
  ["lib/operating_system.c", "lib/utils.c"], [("os-release line parser", "lib/utils.c"), ("derivation rules", "lib/operating_system.c")])

p("C21", "A problem directory is turned into exactly the report it describes",
  "For every ABRT problem directory, the report built from it carries the type, package, DSO packages, operating system, component (for an unpackaged executable its base name with '-unpackaged'), crash count and parsed stacktrace that the directory's items state, and user flags at their defaults; a missing or unreadable mandatory item, an unreadable list of shared libraries or unparsable content gives no report and an error message, missing optional items are tolerated, and the directory is never modified by reading.",
  ["inputs", "fault_sequences"], "all contents and all subsets of missing, empty, malformed or unreadable items",
  "Tests use two fixed directories, all complete.",
  ["lib/abrt.c", "lib/report.c", "lib/rpm.c", "lib/operating_system.c"], [("problem directory reader", "lib/abrt.c")])

p("C22", "Core-dump unwinding reports the real threads, frames and signal",
  "For a process that crashed, the stacktrace produced from its core dump names the executable and signal, has one thread per process thread with the crashing thread marked, and lists for each the call chain with addresses lying in the mapped module, the module's build id, the offset from its base, file name and symbol, up to the frame above the process's entry function and at most the 256 least recent frames. Resolving a GDB backtrace against the core or against an unstrip listing gives the same modules and offsets, and unwinding a live crashing process tells the same as its core; truncated, corrupt or mismatched core files and executables give an error message or a shorter trace, never a crash.",
  ["inputs", "fault_sequences"], "crashing programs with various call chains and threads; all truncations and corruptions of their cores",
  "Tests open one prerecorded core and do not damage it.",
  ["lib/core_unwind.c", "lib/core_unwind_elfutils.c", "lib/core_stacktrace.c", "lib/core_thread.c", "lib/core_frame.c"],
  [("libdwfl unwinding", "lib/core_unwind_elfutils.c")])

p("C23", "The Python bindings expose the C library faithfully and safely",
  "Every attribute, method and metric of the Python module gives the same value as the C library for the same object, attribute assignment accepts exactly the values the C field can hold and rejects others with an exception leaving the object unchanged, and lists of frames and threads reflect the C list in both directions. No sequence of valid or invalid Python calls crashes the interpreter, and objects are released when no longer referenced. A frame belongs to at most one thread and an object occurs at most once in a list: the second occurrence is refused.",
  ["inputs", "histories"], "all sequences of Python-level operations with values of any type",
  "Binding tests are example based and never misuse types, ranges or lifetimes.",
  ["python/py_common.c", "python/py_metrics.c", "python/py_cluster.c", "python/py_gdb_stacktrace.c", "python/py_core_stacktrace.c", "python/py_base_thread.c", "python/py_base_frame.c", "python/py_base_stacktrace.c", "python/py_rpm_package.c", "python/py_report.c"],
  [("generic getters/setters and list conversion", "python/py_common.c")])

p("C24", "Distinct objects can be processed by concurrent threads",
  "Parsing, decoding, encoding, normalising, hashing, comparing, clustering and freeing distinct objects from several threads at once, and reading one shared object from several threads, produce the same results as serially, without data races.",
  ["schedules"], "all interleavings of library calls on distinct objects and of read-only calls on shared ones",
  "The tests are single-threaded.",
  ["lib/utils.c", "lib/normalize.c", "lib/distance.c", "lib/json_utils.c", "lib/generic_stacktrace.c", "lib/koops_stacktrace.c", "lib/core_unwind.c"],
  [("no mutable global state in library calls", "lib/")])

p("C25", "Every call releases what it allocated, on success and on failure",
  "For every input, valid or not, a parse, decode, encode, copy, comparison, hash, normalisation, merge or report operation leaves allocated only the objects it returned, and freeing those returns memory to the prior level; nothing is freed twice or used after being freed.",
  ["inputs", "histories"], "all operations over valid and failing inputs, repeated in one process",
  "The test programs do not look at leaks; failing inputs are few.",
  ["lib/gdb_stacktrace.c", "lib/koops_stacktrace.c", "lib/python_frame.c", "lib/python_stacktrace.c", "lib/ruby_frame.c", "lib/java_frame.c", "lib/js_frame.c", "lib/js_platform.c", "lib/report.c", "lib/abrt.c", "lib/rpm.c", "lib/operating_system.c", "lib/distance.c", "lib/cluster.c"],
  [("explicit ownership with *_free", "lib/")])

p("C26", "Textual renderings state the stacktrace faithfully",
  "The short text of a stacktrace lists the frames of its crash thread in order, numbered from one and limited as requested; the crash reason names the documented identity of the crash; each frame's text states its documented fields; and the GDB and Java thread texts and the full GDB text list the threads and frames in order. Absent strings are never rendered as a null pointer.",
  ["inputs"], "all stacktraces, limits and field combinations",
  "Tests compare a few golden renderings.",
  ["lib/generic_stacktrace.c", "lib/generic_thread.c", "lib/gdb_stacktrace.c", "lib/gdb_frame.c", "lib/core_frame.c", "lib/java_frame.c", "lib/java_thread.c", "lib/koops_frame.c", "lib/koops_stacktrace.c", "lib/python_frame.c", "lib/ruby_frame.c", "lib/js_frame.c"],
  [("append_to_str, to_short_text, get_reason", "lib/generic_stacktrace.c")])

p("C27", "File input and output is all-or-error under every fault",
  "Reading a file (up to the 20 MB limit) returns its entire text or nothing with an error message, and writing a file reports success only when exactly the given text was stored; when a system call of the operation fails, transfers fewer bytes, or the file changes meanwhile, the outcome is an error message or still the whole content, never part of it, and no descriptor stays open in any case. An item of a problem directory whose reading fails has the same effect as an unreadable item: an error for a required one, absence for an optional one. The command-line tool exits non-zero with a message whenever its operation failed or its output could not be written, and with zero otherwise.",
  ["fault_sequences", "inputs"], "every failing or short system call position in read, write, report and command-line operations",
  "Tests only read existing files successfully.",
  ["lib/utils.c", "lib/abrt.c", "satyr.c"], [("sr_file_to_string / sr_string_to_file", "lib/utils.c"), ("problem directory items", "lib/abrt.c"), ("main and its commands", "satyr.c")])

p("C28", "Scanning primitives consume exactly what they match",
  "Each scanning primitive (characters, spans, strings, decimal and hexadecimal numbers, whitespace, lines, locations, indentation, path joining, hex encoding) advances the cursor by exactly the matched length and returns the matched text or value, or fails leaving cursor and result untouched, never passing the terminator; number parsing refuses values that do not fit; line and column tracking equals counting characters and newlines.",
  ["inputs"], "all texts and character sets",
  "Tests try a few strings per primitive.",
  ["lib/utils.c", "lib/location.c"], [("scanning primitives", "lib/utils.c"), ("location arithmetic", "lib/location.c")])

p("C29", "Module and function address lookups answer by containment",
  "Parsing an unstrip listing yields each module's start, length, build id, file and module name, and looking up an address in modules, shared libraries or unwind ranges yields the entry whose range (half-open for modules and unwind ranges, inclusive for shared libraries) contains it, or none. Listing a disassembly's callees yields each direct call target once, in order of first appearance.",
  ["inputs"], "all listings, ranges including 64-bit extremes, and addresses at every boundary",
  "Tests have no unstrip or unwind-range case and one shared-library lookup.",
  ["lib/unstrip.c", "lib/gdb_sharedlib.c", "lib/elves.c", "lib/disasm.c"], [("linear containment search", "lib/unstrip.c")])

p("C30", "Quality metrics equal their definitions",
  "The quality of a frame list is the ratio of well-known frames to all frames (1 when empty), where a GDB frame is well known when its function and source file are known or it is a signal handler, and a Java frame when it is native or its file is known; the stacktrace quality is the ratio over all threads (0 without frames), and the complex quality is the documented weighted mean (0.4, 0.35, 0.25) of the top five frames of the crash thread, the crash thread and the whole after normalisation. All lie in [0,1].",
  ["inputs"], "all threads and stacktraces of GDB and Java type",
  "Tests compute two or three values.",
  ["lib/gdb_thread.c", "lib/gdb_stacktrace.c", "lib/java_thread.c", "lib/java_stacktrace.c"], [("quality_counts", "lib/gdb_thread.c")])

p("C31", "ELF unwind ranges and PLT slots are read exactly and safely",
  "Reading the unwind information of an ELF file (32 or 64 bit, executable or library, wherever its segments are placed) yields one entry per function record of its .eh_frame section, in order, with the address of the first executable segment as base, the function's start relative to that base and its length, for absolute and pc-relative pointer encodings; reading the procedure linkage table of an x86-64 file yields each slot's address and the symbol it stands for, and looking up an address finds the slot that starts there. A file that is damaged, truncated, without these sections or not ELF at all is refused with a message or read as far as it is meaningful, without memory errors, and in every case no descriptor or memory is kept.",
  ["inputs"], "all ELF files: linked by any linker with any segment layout, separate debuginfo files, and arbitrarily damaged ones",
  "No test reads an ELF file through these functions; layouts differ between linkers and hostile files are never tried.",
  ["lib/elves.c", "lib/elves.h"], [("CIE/FDE iteration over .eh_frame", "lib/elves.c"), ("PLT slot decoding", "lib/elves.c")])

p("C32", "Call graphs hold exactly the functions reached by direct calls",
  "Computing a call graph over all unwind ranges yields one entry per function in order, with the function's address (base plus start) and the distinct addresses it directly calls, or nothing and a message when one cannot be disassembled. Extending a call graph from a start address adds that function and everything reachable from it through direct calls, each function once and in depth-first order, disassembling each at most once; callees that are not functions are kept as addresses but not followed; an unknown start or one without code is refused with a message and leaves the graph as it was. Finding an address and the last entry agree with the list.",
  ["inputs", "histories"], "all programs (trees, chains, cycles, recursion, calls outside known functions) and all sequences of starts",
  "No test covers call graphs; cycles, shared callees and failing disassembly in the middle decide correctness.",
  ["lib/callgraph.c", "lib/disasm.c", "lib/elves.c"], [("recursive extension over callees", "lib/callgraph.c")])
p("C33", "The Ruby bindings give what the C library gives",
  "For every report text, the Ruby bindings of this tree, loaded with the library of this tree, open it exactly when the C library decodes it (otherwise SatyrError with the library's message); stacktrace is nil or a stack trace for every type of report the library knows; find_crash_thread and duphash give what the C functions give for the same frames, prefix and flags (names or bits). Stack traces and threads are independent copies: they stay valid after their parents are collected, each object is released exactly once, and repeating the work does not grow memory.",
  ["inputs", "histories"], "all report texts, options and orders of garbage collection",
  "The only Ruby tests need a gem layout and open one core report; ownership across the garbage collector depends on when it runs.",
  ["ruby/lib/satyr.rb", "lib/report.c", "lib/thread.c"], [("type-switched duplication and managed pointers", "ruby/lib/satyr.rb")])
p("C34", "Package database queries find every matching installed package",
  "Asking the package database by name or by path returns exactly the installed packages with that name, or owning that path, each with its name, epoch (zero when it has none), version, release, architecture and installation time; nothing when there is no match; and nothing plus a message naming the missing datum when a matching package lacks one, or when the configuration cannot be read. The database is not changed, no transaction or file stays open, and nothing is leaked whether packages are found or not.",
  ["inputs", "histories"], "all databases, names and paths",
  "No test queries a database; most packages have no epoch, several versions and shared files are common.",
  ["lib/rpm.c", "include/rpm.h"], [("header to package conversion", "lib/rpm.c")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
