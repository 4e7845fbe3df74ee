"""What DESIGN.md says about each property (read by mkdesign.py)."""
T = {
"C01": """
*Monitor:* ASan/UBSan on every access of the parsers to the exact-size input block (one byte past the
terminator is poisoned), assertion on the cursor after every parse, on "error message iff no object", CPU
watchdog per case; a sample of cases again under memcheck on the plain build for values used before being set.
*Workload:* generated texts of every format, the repository's own sample traces, token soups, byte and line
mutations, texts cut at many offsets (or at every offset for short ones), one format's text given to
another's parsers, very long lines, 10^4-fold repetition and nesting of brackets, quotes, templates,
causes; a libFuzzer stage over all entry points. *Reach beyond tests:* they run a few dozen files
without instrumentation.""",
"C02": """
*Oracle:* a schema per document kind (fields, JSON types, ranges, which are required) decides "must be
accepted", "must be refused" or "either, but consistently"; an accepted document must give an object that
survives encoding, hashing, rendering, duplication and release under ASan; a refused one no object and a
non-empty message; the same with no message requested. *Workload:* valid documents with any field missing, null,
retyped, huge, negative, fractional, duplicated, nested one level deeper or swapped, truncations,
byte mutations, arbitrary JSON and arbitrary bytes. Memcheck on a sample.""",
"C03": """
*Oracle:* the text is read by a strict RFC 8259 parser (no leniency: control characters, surrogates,
duplicate keys, trailing text are errors) and compared, value by value, with the document the
format defines for the object (`vf/model.py`); decoding gives the same field dump, re-encoding the same text.
*Workload:* objects over all types with any subset of fields, extremes of every integer width, strings of
control characters, quotes, backslashes, UTF-8 and Latin-1 bytes; large documents. GDB's encoder (null) included.""",
"C04": """
*Oracle:* as C03 for reports (version, reporter, type, user, component, serial, OS, packages with roles,
problem data, authentication entries), decoding compared part by part, re-encoding the same text.""",
"C05": """
*Oracle:* field dumps before and after; aliasing is detected by overwriting every field and string byte of
one object in place, editing its lists and freeing it, then dumping the other (ASan reports any shared
block); pointers into the object (crash thread) must point into the copy.""",
"C06": """
*Oracle:* reflexivity, antisymmetry of sign, transitivity over all triples of the case and "equal iff all
compared fields are equal" against the field list per type, for cmp, cmp_distance and thread comparison of
all types; frame pointers swapped in and out of lists to make sure only fields count.""",
"C07": """
*Oracle:* textbook edit distance, restricted Damerau edit distance and Jaccard index over the equivalence
classes of the distance comparison, and a transcription of the library's own Jaro-Winkler definition; laws
(range, symmetry, identity, different types at maximum); the threads are dumped before and after.
Known finding: Jaro-Winkler exceeds 1 when frames repeat.""",
"C08": """
*Oracle:* every entry equals the pairwise distance call for that pair bit by bit; parts cover each pair once
(counted); merging in any order gives the same matrix; corrupted lists of parts (missing, doubled, other n/m/metric/lengths)
are refused; matrices with tens of thousands of columns are checked for their indexing only.""",
"C09": """
*Oracle:* replay of the dendrogram: order is a permutation and each merge must join, at the stated level, two clusters
whose average distance is the minimum over all pairs at that step (ties in any order); cuts recomputed from
the levels: disjoint, maximal, at least the minimum size, all members listed.""",
"C10": """
*Oracle:* the expected stacktrace is produced by the generator together with the text (not by a second
parser) following GDB's output format: thread headers of all GDB versions, wrapped lines, templates, operators,
anonymous namespaces, casts, argument lists with strings and braces, locals, signal handler frames, library table.
*Second oracle:* random C++ programs (`vf/realgdb.py`: call chains through templates, operators, lambdas, thunks, libc callbacks, handlers,
inlined functions; hostile arguments, locals, file and thread names; -O0 to -O2, with and without debug information) are crashed under the installed
GDB; the parse of its `thread apply all backtrace full` is compared with GDB's machine interface (`-stack-list-frames`, `-thread-info`, library ranges).
This found eleven kinds of frames and headers that were refused or misread (all repaired).""",
"C11": """
*Oracle:* as C10 for oopses of x86_64, i386, ARM (two forms), s390, ppc: timestamps, brackets, reliability marks, `from` functions,
IRQ/EOI/NMI sections, RIP lines, modules split over lines, taint flags, noise lines around and between.""",
"C12": """
*Oracle:* as C10 for CPython (incl. SyntaxError), Ruby, JVM (causes, suppressed, native, unknown source), V8 (constructors, async, eval, anonymous).
Besides the generated texts, the installed runtimes themselves (`vf/realrun.py`, `vf/rt/`): random programs raise exceptions through random chains of calls
(closures, generators, reflection, class bodies, recursion, wrapped and circular causes, hostile names and messages); the text the runtime prints is parsed and
compared with what its own introspection says (tb_frame/linecache, backtrace_locations, StackTraceElement, the V8 CallSite API). About 1300 exceptions a quick
run. This found five groups of defects in the parsers (see known-findings.json).""",
"C13": """
*Oracle:* the documented precedence computed on the field dump; crash frame compared by content and then
checked for independence by editing and freeing the source.""",
"C14": """
*Oracle:* the rule tables of normalize.c/.gperf frozen in `vf/known_frames.py` and applied by a reference
normaliser, position by position, twice; all fields of the kept frames compared; and core path anonymisation. Names at every
position including the tables' own alias, prefix and suffix forms; the gperf table is covered name by name.""",
"C15": """
*Oracle:* the text per type computed by the reference (prefix, header, one line per normalised frame up to
the limit) and SHA-1 by hashlib; metamorphic: edits outside the identity keep the hash, edits inside change it;
thread dumped before and after.""",
"C16": """
*Oracle:* an independently built twin and a duplicate hash equal; every single-field edit and structural edit (add, remove, swap, move between threads)
changes the text; SHA-1 by hashlib over the text; dump before and after.""",
"C17": """
*Oracle:* users are unique tokens: searched for in the paths, JSON, texts of the result; paths rebuilt
independently and compared byte for byte; applied twice.""",
"C18": """
*Oracle:* a list model replayed step by step; dump after each step; frees counted by the allocation hook; ASan for stale links.""",
"C19": """
*Oracle:* grammar of the two name forms; total preorder laws and documented field order; rpmvercmp by librpm itself on the parts;
sorting = ordered permutation, uniq = merged equal neighbours with roles kept; JSON as C03. RPM database lookups are exercised through
C21/C27 only as far as a sandbox without packages allows.""",
"C20": """
*Oracle:* an independent os-release reader (shell-style quoting as documented) and the derivation rules; system-release rules; JSON as C03.""",
"C21": """
*Oracle:* an independent reader of the directory; stacktrace compared with parsing the item directly; the
directory's content, modes and times before and after; `satyr report` output of the same directory. Faults: missing, empty, malformed,
over-long items, directories and dangling links in place of items.""",
"C22": """
*Oracle:* programs generated per seed (gcc/clang, dynamic, static, PIE or not, own shared libraries, threads,
signal kinds, call chains through libraries, recursion, handlers) note the return addresses of their own calls at run time,
their mappings and build ids; the kernel writes the core; the stacktrace must show exactly these threads, chains, modules, offsets, build ids, symbols and the signal.
A second observer, plain libdw (`core ref`), separates what libdw can see of a damaged file from what satyr makes of it: a crash or leak that the baseline shares is
counted, not reported. Damage: truncation at many offsets, overwritten headers and notes, mixed-up executables; each must give a trace or a
message. The live hook (PTRACE_SEIZE of a child at its fatal signal) must tell the same as the core. GDB text + core and GDB text + unstrip are resolved and compared.
Half of the cases of all driver-run checks run with the standard input closed (files then get descriptor 0), as ABRT's hook does.
*Bounds:* x86-64; frames inside libc are compared by module/offset/build id only.""",
"C23": """
*Oracle:* a reference data model of the Python objects whose answers (hashes, texts, distances, decoded values) come from the C
library through the driver; every outcome (value or kind of exception) and every reachable attribute is compared after each operation;
reference counts and live blocks must return to the level before (leak balance); conversions (`__index__`, `__float__`, `__bool__`, `__eq__`) that edit the very objects
being processed, out-of-range integers, wrong types, doubled objects, failing constructors. The extension is built with ASan/UBSan; a crash is attributed to the operation.
*Bounds:* at most 12 threads per Distances; pickling and copy.copy are not part of the balance.""",
"C24": """
*Monitor:* ThreadSanitizer on the library; results of 2–8 threads released together (random skew) compared with the
serial run of the same sequences; shared stacktraces are only read. Interleavings observed are recorded as the order of call starts/ends.
Core files of three small crashing programs (made at setup), ELF files and call graphs are read by several threads too. libdw and libelf calls are serialised by a lock that
TSan does not see: libdw 0.190 itself is not reliably safe among threads (plain concurrent use cut traces short), and that is not this library's matter. What satyr keeps
between its libdw calls is still judged.""",
"C25": """
*Monitor:* allocation hooks and `/proc/self/fd`: after a warm-up run, blocks and descriptors held after
freeing everything returned must be zero; double free and use after free by ASan. Sequences come from the generators of all other properties.""",
"C26": """
*Oracle:* reference renderings (`vf/texts.py`) per type, all limits, absent fields; "(null)" is searched for in all outputs.""",
"C27": """
*Oracle:* content-or-error; reports compared with those of the same directory with the disturbed item unreadable; descriptors; exit status, output
and message of the tool. *Faults:* open/fstat/read/write/close/opendir failing with several errnos at the n-th call, short transfers, growth, truncation and
replacement during the call; for the tool: closed or full standard output.""",
"C28": """
*Oracle:* a definition in Python for each primitive; exact-size blocks; numbers around 2^31, 2^32, 2^63, 2^64; line/column recomputed.""",
"C29": """
*Oracle:* containment over the ranges written into the listing, probes at every boundary ±1 and the 64-bit extremes; callee lists recomputed from the generated disassembly.""",
"C30": """
*Oracle:* definitions recomputed in double precision from the dump; stacktrace must be unmodified.""",
"C31": """
*Oracle:* by construction — `vf/elfgen.py` writes ELF files (32/64 bit; one or separate segments with equal or different address biases; every pointer encoding,
augmentation, CIE version and 32/64-bit record format) whose functions and slots are known; real programs linked in 12 ways and the system's libraries are compared with
`readelf`. *Hostile:* the same files with bytes, header fields, lengths and sections damaged, separate debuginfo files, records ending at the section's end; ASan/UBSan watch,
descriptors are counted per call, and C25 counts memory over the same generator.""",
"C32": """
*Oracle:* reachability recomputed from the generated calls. The real `lib/callgraph.c` and callee extraction run; only the disassembler call (compiled out: "satyr compiled
without libopcodes") is replaced by a table of listings through `--wrap`, which also counts how often each function is asked for.""",
"C33": """
*Oracle:* the C library's own answers (decoding, crash thread, duplicate hashes), computed by the driver in another process; C02, C24 and others judge those. The bindings run in a
real interpreter on the sanitized shared library, with garbage collection forced between steps and parents dropped before children; the sanitizer's allocation counter over
repetitions of a case decides the balance, because the interpreter's own memory hides leaks from LeakSanitizer.""",
"C34": """
*Oracle:* the generated packages. Real sqlite databases are made through librpm in a scratch directory that RPM_CONFIGDIR of the driver process names, so the system's database is
never touched. librpm keeps memory for every reading of the configuration; that growth is measured alongside and subtracted.""",
}
