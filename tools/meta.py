"""Single source for properties.jsonl, MANIFEST.json and the check driver."""
H = {"C28": {"ldflags": ["PYTHON"]}, "C32": {"ldflags": ["CLI"]}}       # harness units with special build needs
P = {}       # property id -> everything


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, **check):
    P[id] = dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                 why=" ".join(why.split()), files=files, mech=mech, observe=observe or [], state=state or [], check=check)


prop("C01", "Text parsers are memory-safe, terminating and leak-free on every text",
     """Parsing any NUL-terminated text with any parser of the library (stack traces of every supported
     kind and their sub-parsers, package names, module lists, OS release files) terminates, never touches memory
     outside the text or its own objects, and never aborts. Whatever it allocates is either part of the returned
     result, released by freeing that result, or released before it reports failure. Every query a user can make on a
     successfully parsed result is equally safe.""",
     ["inputs"], "all texts (arbitrary bytes without NUL), including truncated, mutated and deeply repetitive ones",
     """Unit tests parse a few dozen well-formed sample files; malformed, truncated and adversarial texts are almost not covered
     and no test runs under a sanitizer or counts allocations.""",
     ["lib/utils.c", "lib/gdb_frame.c", "lib/gdb_thread.c", "lib/gdb_stacktrace.c", "lib/gdb_sharedlib.c", "lib/koops_frame.c", "lib/koops_stacktrace.c",
      "lib/python_frame.c", "lib/python_stacktrace.c", "lib/java_frame.c", "lib/java_thread.c", "lib/java_stacktrace.c", "lib/js_frame.c", "lib/js_stacktrace.c",
      "lib/ruby_frame.c", "lib/ruby_stacktrace.c", "lib/rpm.c", "lib/unstrip.c", "lib/operating_system.c", "lib/abrt.c"],
     [("cursor-advancing scanner primitives that stop at the terminating NUL", "lib/utils.c"),
      ("per-language recursive descent parsers that free partial results on failure", "lib/*_frame.c, lib/*_thread.c, lib/*_stacktrace.c")],
     observe=["return value of sr_stacktrace_parse and the per-type parse functions"],
     harness=["C01"], level="exploration", technique="bounded-exhaustive exploration of the real parsers (all token sequences, all single edits) under ASan/UBSan with allocation accounting",
     rule="one execution = one text given to one parser; texts are every token sequence up to the depth bound after every context prefix, every single token/byte edit and every truncation of realistic seeds, and a repetition ladder; distinct_nontrivial counts distinct (parser, success, consumed length, error location, result digest) outcomes",
     bounds={"quick": "sequences of <=3-4 tokens (<=2-3 for alphabets over 24 tokens) after each context; 1 edit per seed; repetition up to 1025, of brackets and words up to 30000", "thorough": "sequences of <=4-5 tokens, 1 and 2 edits per seed; repetition as in quick"},
     level_note="Every text in the bounded space is executed on the real code built with AddressSanitizer and UBSan; a wrong access, abort, leak or hang in that space is found. Texts outside the alphabets/bounds are not covered.")

prop("C02", "Parsers honour the cursor, result and error-location contract",
     """A parser that takes a cursor advances it, on success, exactly past the text it consumed and never past the terminator; the number of
     characters it reports equals the cursor movement; the result depends only on the consumed text and its lookahead, not on memory beyond it. On failure it leaves the cursor untouched, hands out
     no object, returns a null/zero result and, where it reports a location, gives a message and a line number of the text.""",
     ["inputs"], "all texts, at every parser entry point taking a cursor",
     """Tests assert cursor movement and locations for a handful of hand-written inputs per parser; the failure contract is asserted almost nowhere.""",
     ["lib/utils.c", "lib/location.c", "lib/gdb_frame.c", "lib/gdb_thread.c", "lib/gdb_stacktrace.c", "lib/koops_frame.c", "lib/koops_stacktrace.c", "lib/python_frame.c", "lib/python_stacktrace.c", "lib/java_frame.c", "lib/java_thread.c", "lib/java_stacktrace.c", "lib/js_frame.c", "lib/js_stacktrace.c", "lib/ruby_frame.c", "lib/ruby_stacktrace.c"],
     [("parse into a local cursor, publish it only on success", "lib/*_frame.c"), ("location accumulation while consuming text", "lib/location.c")],
     harness=["C02"], level="exploration", technique="bounded-exhaustive exploration of the real parsers with a contract monitor on every execution",
     rule="one execution = one text given to one parser twice (at different places in memory); distinct_nontrivial counts distinct (parser, success, consumed length, location, result digest) outcomes",
     bounds={"quick": "token sequences of <=3 (<=2-3 for alphabets over 24 tokens) after each context, all single edits and truncations of the seeds", "thorough": "token sequences of <=4-5"},
     level_note="The monitor checks cursor, reported count, outputs, message and location on every text of the bounded space.")

def _todo(): return dict(harness=[], level="model_checking", technique="", rule="", bounds="", level_note="")

_lang_why = """Tests parse fixed sample files and compare a few fields; the mapping from text to structure must hold for every combination of optional parts, which no sample set enumerates."""
prop("C03", "GDB backtraces are parsed into exactly the threads and frames they show",
     """Parsing a well-formed GDB backtrace yields its threads, crash frame, frames and shared libraries in order, each with exactly the number, address, function name and type, source file, line or
     library shown, including signal-handler frames, templates, operators, const methods and arguments containing quotes, brackets or newlines. Text that is not part of a frame does not add, drop or merge frames.""",
     ["inputs"], "all well-formed backtraces: any number of threads/frames, any combination of optional frame parts", _lang_why,
     ["lib/gdb_frame.c", "lib/gdb_thread.c", "lib/gdb_stacktrace.c", "lib/gdb_sharedlib.c"], [("GDB grammar parser", "lib/gdb_frame.c"), ("thread and stack trace assembly", "lib/gdb_stacktrace.c")], harness=['C03'],
     level='model_checking',
     technique='exhaustive bounded exploration of generated backtraces: structure -> rendered text -> real parser -> comparison with the structure',
     rule='one execution = one structure (frame or whole backtrace) rendered and parsed; distinct_nontrivial counts distinct texts whose parse was compared field by field',
     bounds={'quick': 'all function names of a 130-name grammar x types x places; all argument kinds x locations x addresses x endings; backtraces of <=3 threads x <=3 frames with <=2 deviations (frame kinds, noise, header forms, libraries); every text of <=4 pieces out of 7-10 special ones in each place; strings of 27 sizes around powers of two up to 4097; up to 300 threads, frames or libraries', 'thorough': 'as quick with <=3 deviations and all frame numbers; texts of <=5 pieces, 30 sizes up to 65537; up to 600 threads, frames or libraries'},
     level_note="The reference is the generated structure itself. Names, files and arguments outside the generator's grammar are not covered.")
prop("C04", "Kernel oopses are parsed into exactly the call chain they show",
     """Parsing a kernel oops text yields one frame per call-chain line in order with exactly the shown address, reliability mark, function, offset, length, module and alternate stack, whatever time stamps and indentation precede the lines;
     the reason is the first line, the taint flags and the module list are those printed, however the list is wrapped. The faulting-instruction line contributes the first frame exactly once.""",
     ["inputs"], "all oops texts made of call-chain lines in the supported notations, stack markers, module list, taint line, noise lines", _lang_why,
     ["lib/koops_frame.c", "lib/koops_stacktrace.c"], [("line-wise oops parser", "lib/koops_stacktrace.c"), ("frame notations of x86, arm, s390, ppc", "lib/koops_frame.c")], harness=['C04'],
     level='model_checking',
     technique='exhaustive bounded exploration of oops structures: structure -> rendered text -> real parser (typed and generic interface) -> comparison of every field with the structure',
     rule='one execution = one oops rendered, parsed and compared field by field; distinct_nontrivial counts distinct texts',
     bounds={'quick': 'all oopses of <=2 frames with <=3 and of 3 frames with <=2 departures from a typical one (9 notations of x86, ARM, PowerPC and s390, 7 addresses, 7 offsets, 6 lengths, 13 functions, 7 modules, reliability, 5 indents, 6 time stamps, 8 stack markers, 21 noise lines); every sequence of <=4 of 17 kinds of line; full product for one frame line; every bit of every number; every sequence of <=3 stack markers; every position of <=2 instruction-pointer lines; module lists of <=3 modules broken at every character and of <90 modules; all sets of <=3 taint flags; every text of <=3 pieces out of 7-10 special ones in each place; strings of 27 sizes around powers of two up to 4097', 'thorough': '<=4 departures for <=2 frames, <=3 for <=4 frames, sequences of <=5 lines, all 65536 sets of taint flags, <200 modules, two line breaks per module list; texts of <=4 pieces, 30 sizes up to 65537'},
     level_note='RIP lines of kernels that print no addresses, module build identifiers and log-level or host prefixes are outside the space (the first is pinned by a test). The kernel version is never filled in by the parser.')
prop("C05", "Python tracebacks are parsed into exactly the frames they show",
     """Parsing a Python traceback yields one frame per "File" line, innermost first, with exactly the file, line number, function and source line shown and with special files and functions recognised as such; the exception
     name is the type printed on the last line. Syntax-error location frames and marker lines do not add, drop or merge frames.""",
     ["inputs"], "all tracebacks built from any number of frames with any combination of optional parts", _lang_why,
     ["lib/python_frame.c", "lib/python_stacktrace.c"], [("traceback parser", "lib/python_stacktrace.c")], harness=['C05'],
     level='model_checking',
     technique='exhaustive bounded exploration of traceback structures: structure -> rendered text -> real parser (typed and generic interface) -> comparison of every field with the structure',
     rule='one execution = one traceback rendered, parsed and compared field by field; distinct_nontrivial counts distinct texts',
     bounds={'quick': 'all tracebacks of <=2 frames with <=3 and of 3 frames with <=2 departures from a typical one (14 file names, 16 functions or none, 13 source lines or none, 9 marker/continuation/recursion lines, 6 line numbers, 5 preambles, 8 exception names, 11 endings); every pattern of optional parts over <=4 frames; full product for one frame; full product of preamble, name and ending; the syntax-error form; up to 120 frames; every text of <=4 pieces out of 7-10 special ones in each place; strings of 27 sizes around powers of two up to 4097', 'thorough': '<=2 frames with <=4 and <=4 frames with <=3 departures, patterns over <=6 frames, up to 400 frames; texts of <=5 pieces, 30 sizes up to 65537'},
     level_note='Chained exceptions (several tracebacks in one text), file names containing a double quote and empty names are outside the space.')
prop("C06", "Java stack traces are parsed into exactly the exceptions and frames they show",
     """Parsing a Java stack trace yields the thread name, each exception with its name and message, its frames and, through "Caused by", its causes innermost first, each frame with exactly the shown method, file, line, native flag and
     class path; suppressed exceptions and elided-frame notes do not change that.""",
     ["inputs"], "all traces built from exceptions, frames, causes, suppressed sections in any combination of optional parts", _lang_why,
     ["lib/java_frame.c", "lib/java_thread.c", "lib/java_stacktrace.c"], [("exception parser", "lib/java_frame.c")], harness=['C06'],
     level='model_checking',
     technique='exhaustive bounded exploration of Java trace structures: structure -> rendered text -> real parser (typed and generic interface) -> comparison of every field with the structure',
     rule='one execution = one trace rendered, parsed and compared field by field; distinct_nontrivial counts distinct texts',
     bounds={'quick': 'all traces of <=3 chained exceptions (<=3/2/1 frames each) with <=2 departures and of one exception with <=3 from a typical one (6 exception names, 11 messages, 12 methods, 10 source notations, 11 class paths, 4 elision notes, 11 suppressed sections, 7 threads, 6 endings); every combination of elision, suppressed section and frame count over <=3 exceptions; full product for one frame line and for headers; up to 100 frames or causes; every text of <=4 pieces out of 7-10 special ones in each place (and every suppressed section before every source notation); strings of 27 sizes around powers of two up to 4097', 'thorough': '<=4 exceptions with <=3 and one exception with <=5 departures; combinations over <=4 exceptions; up to 300 frames; texts of <=5 pieces, 30 sizes up to 65537'},
     level_note='Messages of several lines or with leading white space, circular-reference notes and traces of several threads are outside the space.')
prop("C07", "Ruby backtraces are parsed into exactly the frames they show",
     """Parsing a Ruby backtrace yields the exception class and message and one frame per location line in order, each with exactly the shown file, line, function, special-function flag, and block and rescue levels.""",
     ["inputs"], "all backtraces built from frames with any nesting of block/rescue qualifiers and any message", _lang_why,
     ["lib/ruby_frame.c", "lib/ruby_stacktrace.c"], [("right-to-left frame parser", "lib/ruby_frame.c")], harness=['C07'],
     level='model_checking',
     technique='exhaustive bounded exploration of backtrace structures: structure -> rendered text -> real parser (typed and generic interface) -> comparison of every field with the structure',
     rule='one execution = one trace rendered, parsed and compared field by field; distinct_nontrivial counts distinct texts',
     bounds={'quick': 'all backtraces of <=2 frames with <=3 and of 3 frames with <=2 departures from a typical one (15 file names, 32 functions, 6 line numbers, 4 rescue levels, 6 block levels, 16 messages, 7 class names); every pattern of qualifiers over <=4 frames; full product for one frame in each position; all pairs of messages; up to 150 frames; <60 nested qualifiers; every text of <=4 pieces out of 7-10 special ones in each place; strings of 27 sizes around powers of two up to 4097', 'thorough': '<=4 departures for <=2 frames, <=3 for <=4 frames, patterns over <=5 frames, up to 400 frames; texts of <=5 pieces, 30 sizes up to 65537'},
     level_note='The format is the one abrt writes (class in parentheses after the message). Functions or files containing a backtick before the function, function names containing a quote, "ensure in" qualifiers (there is no field for them) and messages containing ")" followed by a frame line are outside the space.')
prop("C08", "JavaScript stack traces are parsed into exactly the frames they show",
     """Parsing a V8 stack trace yields the exception name and one frame per "at" line in order, each with exactly the shown function (qualifiers such as "new" and "async" included, an "[as ...]" alias left out), file, line and column, for every supported
     location notation, whether the general parser, the one of the engine or the one of the platform is used.""",
     ["inputs"], "all V8 traces built from frames with any combination of optional parts", _lang_why,
     ["lib/js_frame.c", "lib/js_stacktrace.c", "lib/js_platform.c"], [("V8 frame parser", "lib/js_frame.c")], harness=['C08'],
     level='model_checking',
     technique='exhaustive bounded exploration of V8 trace structures: structure -> rendered text -> real parser (typed and generic interface) -> comparison of every field with the structure',
     rule='one execution = one trace rendered, parsed and compared field by field; distinct_nontrivial counts distinct texts',
     bounds={'quick': 'all traces of one frame with <=4 and of 2..3 frames with <=2 departures from a typical one (16 functions or none, 5 aliases, 20 locations, 6 line and 6 column numbers, 5 leads, 2 separators, 3 trails, 8 names, 11 messages); every pattern of 6 line notations over <=5 frames; full product for one frame; all pairs of messages; up to 150 frames; every text of <=4 pieces out of 7-10 special ones in each place; strings of 27 sizes around powers of two up to 4097; 8 x 16 runtime and engine codes and 9 names', 'thorough': '<=4 departures for <=2 frames, <=3 for <=4 frames; patterns over <=6 frames; up to 400 frames; texts of <=5 pieces, 30 sizes up to 65537'},
     level_note='Lines without a file location ("native", "<anonymous>", "index N"), exceptions without a message and message lines that look like frames are outside the space: the first two are rejected by the parser, the tests pin the rejection.')

prop("C09", "JSON output is valid and reading it back loses nothing",
     """Serialising any stack trace, thread, frame, package, operating system or report produces valid JSON, and reading that JSON back produces an object with the same content: serialising it again gives the same text
     and every field that the format carries keeps its value. This holds for every content: absent, empty or unusual strings (quotes, backslashes, control characters, non-ASCII bytes in UTF-8), zero and maximal numbers, and any number of threads and frames.""",
     ["inputs", "configurations"], "all object contents, every field independently absent/boundary/typical", """Tests round-trip one or two fully populated samples per type.""",
     ["lib/json_utils.c", "lib/core_frame.c", "lib/core_thread.c", "lib/core_stacktrace.c", "lib/python_frame.c", "lib/python_stacktrace.c", "lib/koops_frame.c", "lib/koops_stacktrace.c", "lib/java_frame.c", "lib/java_thread.c", "lib/java_stacktrace.c", "lib/ruby_frame.c", "lib/ruby_stacktrace.c", "lib/js_frame.c", "lib/js_stacktrace.c", "lib/js_platform.c", "lib/rpm.c", "lib/operating_system.c"],
     [("hand-written serialisers", "lib/*_to_json"), ("typed field readers", "lib/json_utils.c")], harness=['C09'],
     level='model_checking',
     technique='exhaustive bounded exploration of object contents: content -> real writer -> independent strict JSON reader -> real reader -> comparison with the content',
     rule='one execution = one object (frame of any kind, package, operating system, package list or stack trace) written and read back; distinct_nontrivial counts distinct JSON texts that were compared',
     bounds={'quick': 'all objects with <=2 fields away from a typical or an empty object over 15 string and 11 number values; full product of absent/empty/extreme for every field; every byte and every pair of 24 awkward bytes in every string; traces of <=3 threads x <=3 frames with <=2 deviations; <=300 modules; traces of every type with 127-1025 frames, 127-129 threads and strings up to 4097', 'thorough': '<=3 deviations, triples of awkward bytes, all 65536 taint combinations, <=1100 modules; traces of up to 4097 frames, 512 threads and strings up to 65536'},
     level_note='Strings that are not valid UTF-8 and objects outside the value alphabets are not covered. Reports are covered by C20.')
prop("C10", "Malformed JSON is rejected cleanly",
     """Reading any JSON document as any object type either succeeds or fails with a null result and an error message; it never crashes, leaks, reads outside its input or leaves the caller with both a result and an error message. A mandatory or
     present field of the wrong JSON type is always rejected, whatever its depth in the document.""",
     ["inputs"], "all JSON values for every reader: every field missing, null, or of every wrong type, at every depth", """Tests feed each reader one or two malformed documents.""",
     ["lib/json_utils.c", "lib/generic_stacktrace.c", "lib/report.c", "lib/rpm.c", "lib/operating_system.c", "lib/core_stacktrace.c", "lib/python_stacktrace.c", "lib/koops_stacktrace.c", "lib/java_stacktrace.c", "lib/ruby_stacktrace.c", "lib/js_stacktrace.c"],
     [("typed field readers", "lib/json_utils.c"), ("failure paths of from_json", "lib/*_from_json")], harness=['C10'],
     level='model_checking',
     technique='exhaustive exploration of all single structural mutations of complete JSON documents through the real readers, with a contract monitor (result xor message, no leak, type errors rejected, rest of the content kept)',
     rule='one execution = one mutated document read by one reader; distinct_nontrivial counts distinct (reader, place, mutation, accepted) cases',
     bounds={'quick': 'complete documents of every object kind, stack trace and report: every node at every depth replaced by each of 21 values, removed, or given an unknown member, with and without a message argument; every truncation, deletion and substitution by 12 bytes at every position of the texts; lists of 17, 256 and 257 elements with each kind of bad element first, in the middle and last', 'thorough': 'also every pair of structural mutations, and every byte of the indented texts; lists of up to 1025 elements'},
     level_note='os.desktop, os.variant and auth entries of the wrong type are documented as ignored, not rejected. Documents further than two mutations from complete ones are not covered.')
prop("C11", "Copies are independent and list operations preserve every element",
     """A duplicate of a frame, thread, stack trace or package compares equal to and serialises like the original and shares nothing with it: changing or freeing either never affects the other. Appending, removing, counting and duplicating with siblings
     behave like the same operations on a plain sequence, for every sequence of operations.""",
     ["histories"], "all sequences of append/prepend/remove/duplicate/free on frame, thread, package and library lists", """Tests perform one append, removal or duplication on short fixed lists, and do not free originals before using copies.""",
     ["lib/core_frame.c", "lib/gdb_frame.c", "lib/gdb_thread.c", "lib/gdb_stacktrace.c", "lib/gdb_sharedlib.c", "lib/core_thread.c", "lib/core_stacktrace.c", "lib/koops_stacktrace.c", "lib/koops_frame.c", "lib/java_frame.c", "lib/java_thread.c", "lib/java_stacktrace.c", "lib/python_frame.c", "lib/python_stacktrace.c", "lib/ruby_stacktrace.c", "lib/js_stacktrace.c", "lib/rpm.c", "lib/generic_frame.c", "lib/generic_thread.c"],
     [("per-type dup functions", "lib/*_dup"), ("append and remove on singly linked lists", "lib/*_append, lib/*_remove_*")], harness=['C11'],
     level='model_checking',
     technique='exhaustive bounded exploration: every copy of every bounded object through the real duplication functions with mutation and release of either side, and every sequence of list operations up to a depth on the real lists, stepped in lockstep with a plain-sequence model (sanitizers monitor memory)',
     rule='one execution = one object copied and altered, or one operation history; distinct_nontrivial counts distinct objects/histories checked; states counts distinct list states',
     bounds={'quick': 'frames of all 7 kinds with <=2 fields away from typical (15 string, 2-11 number values), alone and among <=3 siblings, 3 release/mutation orders; all traces with <=3 threads x <=2 frames and all optional fields present/absent; all histories of <=4 frame-list and <=5 thread-list operations (<=4-5 elements); all library, package and consistency lists up to 5; traces of every type with 127-1025 frames, 127-129 threads and strings up to 4097', 'thorough': '<=3 fields, histories of 5 and 6 operations; traces of up to 4097 frames, 512 threads and strings up to 65536'},
     level_note='Copies of very long lists (recursion depth) are outside the bound.')
prop("C12", "Comparisons are total orders consistent with equality",
     """Comparing frames, threads, packages and stack traces is reflexive, antisymmetric and transitive for every content; two objects compare equal exactly when the compared content is equal, and the order never depends on how
     far apart two values are. Comparing objects of different kinds reports inequality instead of misreading them.""",
     ["inputs"], "all pairs and triples of objects with every field independently absent/boundary/typical", """Tests compare a few pairs with small nearby numbers.""",
     ["lib/core_frame.c", "lib/gdb_frame.c", "lib/koops_frame.c", "lib/python_frame.c", "lib/java_frame.c", "lib/ruby_frame.c", "lib/js_frame.c", "lib/core_thread.c", "lib/gdb_thread.c", "lib/java_thread.c", "lib/generic_thread.c", "lib/generic_frame.c", "lib/rpm.c"],
     [("field-wise comparison functions", "lib/*_cmp")], harness=['C12'],
     level='model_checking',
     technique='exhaustive enumeration of all pairs and triples of bounded objects through the real comparison functions, checked against the order axioms and a reference notion of compared content',
     rule='one execution = one object compared with every other (pairs), one pair with every third (triples), one field over all its values (monotone); distinct_nontrivial counts distinct such groups',
     bounds={'quick': 'all comparisons of frames (7 kinds, own and generic), packages (full, NEVRA, NVR), consistency entries, threads, Java traces: all pairs of objects with <=2 fields away from typical (6 string, 5-11 number values incl. extremes), all triples of objects with <=1 field away, all sequences of <=3 elements over 3 in pairs and triples, all pairs of kinds; threads and strings of sizes around powers of two differing in one place', 'thorough': 'pairs 3 against 1 fields away, triples 1-1-2, sequences of <=4; larger sizes'},
     level_note='What counts as compared content follows the documented exceptions: gdb signal handler frames are all equal, Java exceptions are compared by name, addresses of core and gdb frames and package roles are not compared.')
prop("C13", "Stack distances follow their published definitions",
     """The distance of two threads equals the published measure (Levenshtein and Damerau-Levenshtein with unknown functions counting as different, Jaccard, Jaro-Winkler as documented in distance.h) computed on their frame sequences, whatever
     the kind of the frames. Levenshtein and Jaccard results are symmetric, lie between 0 and 1, and are 0 for identical fully named threads; Jaro-Winkler lies between 0 and 1 and is 1 for identical threads whose frames differ from each other. Threads of
     different kinds are entirely different, and computing a distance changes no thread.""",
     ["inputs"], "all pairs of frame sequences up to a length over a small frame alphabet with unknown functions", """Tests check a dozen hand-picked pairs.""",
     ["lib/distance.c", "lib/generic_frame.c", "lib/generic_thread.c"], [("dynamic programming tables, frame-set intersection, matching windows", "lib/distance.c")], harness=['C13'],
     level='model_checking',
     technique='exhaustive enumeration of all pairs of bounded frame sequences through the real distance functions, compared with independent reference implementations of the definitions',
     rule='one execution = one frame sequence compared with every other of its pool by one distance (or one frame pair / one edit of a long thread); distinct_nontrivial counts distinct result vectors',
     bounds={'quick': 'all frame pairs with <=3 field deviations; all pairs of threads of <=3 frames over 4-6 frames of every kind, <=4 over 4 (gdb, core), <=5 over 3, <=8 over 2; every rotation, swap, cut, insertion and repetition in threads of <20 frames; threads of 15-257 frames, periodic and shifted', 'thorough': '<=4 deviations; <=4 frames over the whole alphabets, <=5 against <=4 over 4, <=6 over 3, <=9 over 2, edits of threads of <40 frames; threads of up to 1025 frames'},
     level_note='Values are compared with a tolerance of 1e-5. Jaro-Winkler has no agreed form for repeated frames: the reference takes the first matching frame in the window, as the existing tests pin.')
prop("C14", "Distance matrices are complete however the computation is split",
     """A distance matrix holds for every pair of threads exactly their distance, is symmetric and zero on the diagonal. Splitting the computation into any number of parts, computing the parts in any order and merging them yields the same
     matrix as the unsplit computation; merging an incomplete or mismatching set of parts fails.""",
     ["histories", "inputs", "configurations"], "all matrix shapes and part counts within a bound, all orders of computing and merging parts, all subsets of parts missing", """Tests split one matrix a few ways and merge all parts in order.""",
     ["lib/distance.c"], [("packed triangular indexing", "lib/distance.c"), ("part iteration and merge", "lib/distance.c")], harness=['C14'],
     level='model_checking',
     technique='exhaustive exploration of matrix shapes, part counts, orders of computing and merging, and operation histories on the real code, compared with reference distances and with the unsplit matrix',
     rule='one execution = one matrix computed, divided, or computed in parts and merged (or one history of computing and merging); distinct_nontrivial counts distinct cases; states = sets of computed parts',
     bounds={'quick': 'all shapes up to 9 threads for every kind and distance, all triples of threads of <=2 frames, all pairs of gdb threads of <=4 frames with unknown functions; all divisions of up to 12 threads; all computing x merging orders of <=4 parts of up to 6 threads; all histories of <=4 operations on 3 parts; all single inconsistencies; matrices of up to 300 objects stored and divided into up to 1000 parts, of up to 33 threads computed in parts; matrices of 2^30 and more entries divided into up to 100001 parts, entries of matrices of up to 17 rows and a million columns', 'thorough': 'up to 12 threads, gdb triples of <=3 and pairs of <=5 frames, divisions of up to 20 threads, histories of <=5 operations, <=5 parts with all four distances; up to 513 objects, 65 threads; divisions of matrices of up to 70000 threads'},
     level_note='Concurrent computation of parts is not explored: parts share no state, each is computed by the caller.')
prop("C15", "Clustering builds the average-linkage dendrogram and cuts it correctly",
     """Clustering a distance matrix yields the average-linkage dendrogram: merge levels never decrease along the tree and the leaf order is a permutation in which every merged cluster is contiguous. Cutting it at a level yields the disjoint
     groups formed by merges up to that level that reach the requested minimum size, and nothing else.""",
     ["inputs"], "all small distance matrices over a small value set, all cut levels and minimum sizes", """Tests cluster two or three fixed matrices.""",
     ["lib/cluster.c"], [("agglomerative merging", "lib/cluster.c"), ("cluster extraction", "lib/cluster.c")], harness=['C15'],
     level='model_checking',
     technique='exhaustive enumeration of small distance matrices and dendrograms through the real clustering; the tree is accepted only if a search over all average-linkage merge sequences (any tie order) produces it',
     rule='one execution = one matrix clustered and its tree validated, or one dendrogram cut at every level and size; distinct_nontrivial counts distinct trees and cuts',
     bounds={'quick': 'all matrices (full and partial) of <=4 objects over 4-5 values, of 5 over 2-3, of 6 over 2; all orders of distinct distances of 4 objects; all dendrograms of <=6 leaves over 4 levels, 9 cut levels, all minimum sizes; up to 40 objects in 6 arrangements and 4 orders; cuts of up to 257 leaves', 'thorough': '4 objects over 5 values, 5 over 3 (partial too), 6 over 3 (partial); all orders of 9 distinct distances of 5; dendrograms of <=8 leaves; 100 objects, 1025 leaves'},
     level_note='Ties may be resolved in any order. Distances missing from a partial matrix leave the distance of the merged cluster as it was, as the code does; levels are compared with a tolerance of 1e-4.')
prop("C16", "Normalisation removes exactly the known noise, in any trace",
     """Normalising a thread or stack trace removes exactly the frames the documented rules classify as noise (exit, abort, assertion, allocator, signal and runtime frames; kernel-reporting frames) and rewrites known aliases, keeping the order and content of all others. Optimising and maximum frame limits keep the innermost frames.""",
     ["inputs"], "all frame sequences up to a length over an alphabet of noise and ordinary functions and libraries", """Tests check single occurrences of a few noise functions at fixed places.""",
     ["lib/normalize.c", "lib/gdb_thread.c", "lib/koops_stacktrace.c", "lib/normalize_hash.gperf"], [("rule-driven frame removal", "lib/normalize.c")], harness=['C16'],
     level='model_checking',
     technique='exhaustive bounded exploration of frame sequences through the real normalisation, compared with a reference implementation of the rules on plain data',
     rule='one execution = one thread (or trace, or pair of threads) normalised and compared; distinct_nontrivial counts distinct inputs',
     bounds={'quick': 'all 250+ rules x 10-20 files x 4 name variants x 7 places; all sequences of <=4 frames over 12 kinds, 5-8 over 4 kinds; koops sequences of <=5; traces of <=3 threads x <=2 frames x crash frames and ids; all pairs of threads of <=3 frames over 5 for pairing; optimised threads of <=5 frames x limits; threads of up to 1025 frames and names of up to 4097 characters near limits; up to 129 frames paired', 'thorough': 'sequences of <=5 (12 kinds), <=9 (4 kinds), koops <=7, pairs of <=4 frames, every file of any rule with every rule; 4097 frames, 65536 characters'},
     level_note='The rule tables in the harness are a snapshot of the rules of the tree; rules added later must be added there.')
prop("C17", "Duplication hashes depend exactly on the crash-relevant frames",
     """The duplication hash of a thread is a function of the normalised innermost frames selected by the frame limit, the prefix and the flags only: threads equal in these have equal hashes, threads differing in them have different hash texts. It does not depend on addresses or
     frames beyond the limit and computing it never changes the thread.""",
     ["inputs", "configurations"], "all frame sequences up to a length, all limits, all flag combinations, all stack trace kinds", """Tests compare a few known hash values.""",
     ["lib/generic_thread.c", "lib/core_frame.c", "lib/gdb_frame.c", "lib/koops_frame.c", "lib/python_frame.c", "lib/java_frame.c", "lib/ruby_frame.c", "lib/js_frame.c", "lib/core_thread.c", "lib/java_thread.c"],
     [("duphash text construction", "lib/generic_thread.c")], harness=['C17'],
     level='model_checking',
     technique='exhaustive bounded exploration of threads x limits x prefixes x flags on the real hash function, against a reference text and an independent SHA-1',
     rule='one execution = one thread hashed with every flag combination (and limits/prefixes); distinct_nontrivial counts distinct (thread, limit, prefix)',
     bounds={'quick': 'all frames with <=3 fields away from a typical one; all sequences of <=4 frames over 4-6 frame kinds (normalised-away ones included) x 9 limits x 4 prefixes x 16 flag sets; every changed position x limit of threads of <=24 frames; every thread of <=3-thread traces; every changed position near the ends and limits of threads of 10 sizes of 127-1025 frames x 12 limits', 'thorough': '<=4 fields, sequences of <=5, threads of <=40 frames, and of 12 sizes up to 4097'},
     level_note='The reference text follows the published format of the hashes. Normalisation itself is taken from the library here and checked by C16.')
prop("C18", "Backtrace hashes identify the whole stack trace",
     """The backtrace hash is determined by the content of the stack trace: equal stack traces have equal hashes in every process and after a copy or a JSON round trip, and stack traces that differ in a hashed field have different hash texts. The hashed form is the digest of the unhashed text.""",
     ["inputs", "configurations"], "all stack traces with every field independently varied", """Tests compare one or two stack traces per kind.""",
     ["lib/generic_stacktrace.c", "lib/core_stacktrace.c", "lib/gdb_stacktrace.c", "lib/koops_stacktrace.c", "lib/python_stacktrace.c", "lib/java_stacktrace.c", "lib/ruby_stacktrace.c", "lib/js_stacktrace.c"],
     [("bthash text construction", "lib/generic_stacktrace.c"), ("SHA-1", "lib/utils.c")], harness=['C18'],
     level='model_checking',
     technique='exhaustive bounded exploration of stack trace contents on the real hash function, against a reference text and an independent SHA-1, with JSON round trips',
     rule='one execution = one stack trace hashed, written, read and hashed again; distinct_nontrivial counts distinct stack traces',
     bounds={'quick': 'all frames with <=2 fields over 15 string and 7-11 number values; all header contents (pairs of taint flags included); all traces of <=3 threads and <=5 frames; traces of every type with 127-1025 frames, 127-129 threads and strings up to 4097', 'thorough': '<=3 fields; <=6 frames over 3 frames; traces of up to 4097 frames, 512 threads and strings up to 65536'},
     level_note='The fields a hash is made of are those of the published format (no thread ids, reasons, columns or function names of core frames).')
prop("C19", "The crash thread and stack trace quality follow their definitions",
     """The crash thread found in a stack trace is the thread that matches the crash frame or is marked as crashed, or the only thread; when no thread qualifies none is returned. Quality ratios, frame limits, thread removal and the optimised thread agree with their definitions on every stack trace.""",
     ["inputs"], "all stack traces of up to a few threads and frames with known and unknown functions", """Tests use one or two fixed stack traces.""",
     ["lib/gdb_stacktrace.c", "lib/gdb_thread.c", "lib/core_stacktrace.c", "lib/generic_stacktrace.c"], [("crash thread search", "lib/gdb_stacktrace.c"), ("quality counts", "lib/gdb_thread.c")], harness=['C19'],
     level='model_checking',
     technique='exhaustive bounded exploration of stack traces through the real queries, compared with reference definitions on plain data',
     rule='one execution = one stack trace (or thread) queried and compared; distinct_nontrivial counts distinct inputs',
     bounds={'quick': 'GDB: <=3 threads x <=1-2 frames over 5 kinds x crash frames x thread ids x crash ids, then every removal; all exit rules x files; core: <=4 threads; quality: threads of <=4 frames over 11 kinds, traces of <=3 threads, <=7 frames around the limit; frame limits 0..7 and INT_MAX; optimised threads with <=2 libraries x addresses; traces of up to 129 threads or 1025 frames, 129 libraries, names of up to 4097 characters', 'thorough': 'one more frame in each'},
     level_note='The definitions (weights of the complex quality, what counts as a good frame, the order used to pick among equal candidates) are those of the headers and of the code at this commit.')
prop("C20", "Reports survive being written and read back",
     """Every report, of every problem type and with any subset of its optional parts, serialises to a valid JSON document with the problem type, stack trace, packages, operating system and metadata it contains, and reading that document back yields an
     equivalent report.""",
     ["inputs", "configurations"], "all reports: every type, every optional part absent/present, boundary strings and numbers", """Tests round-trip a couple of fully populated reports.""",
     ["lib/report.c", "lib/operating_system.c", "lib/rpm.c", "lib/generic_stacktrace.c"], [("report serialiser and reader", "lib/report.c")], harness=['C20'],
     level='model_checking',
     technique='exhaustive bounded exploration of report contents: content -> real writer -> independent strict JSON reader compared with the content -> real reader -> comparison with the content',
     rule='one execution = one report written and read back; distinct_nontrivial counts distinct JSON documents that were compared',
     bounds={'quick': 'all 8 types, reports with <=2 deviations from a typical one over 15 string and 7-11 number values (every package, OS and auth field included); full product of present/absent parts; up to 1025 frames, 129 packages and 1025 authentication entries, strings of up to 4097', 'thorough': '<=3 deviations; sizes up to 4097, 512 and 65536'},
     level_note='The reason of a kernel oops and thread ids are not part of the format; a core trace without a known crash thread marks its first thread, as documented.')
prop("C21", "A problem directory becomes the report it describes",
     """Building a report from a problem directory yields exactly the problem the files describe (type, component, packages, operating system, stack trace, counts), whichever optional files exist. A missing or malformed mandatory file gives a failure with a message, never a crash
     or a silently wrong report.""",
     ["inputs", "configurations", "fault_sequences"], "all combinations of present, absent and malformed files, and failing file operations at every point", """Tests use one sample directory per type.""",
     ["lib/abrt.c", "lib/report.c", "lib/utils.c"], [("problem directory reader", "lib/abrt.c")], harness=['C21'],
     level='model_checking',
     technique='exhaustive exploration of directory configurations (each file as it should be, missing, or one of several other contents, up to a number of deviations) and of failing, interrupted and shortened system calls injected through Syscall User Dispatch, through the real directory reader, compared with a reference reading of the directory',
     rule='one execution = one problem directory read under one sequence of system call outcomes; distinct_nontrivial counts distinct directories and injected outcomes',
     bounds={'quick': '7 type names x packaged or not x all combinations of <=2 files of 20 that are missing or replaced (up to 9 contents each); every single injected outcome at every of the first 120 system calls; type names of <=3 tokens over 11; every file and value at 23 sizes up to 65536, stack traces and lists of up to 512 items', 'thorough': '<=3 files, <=2 injected outcomes; up to 131073 and 1025'},
     level_note='The stack trace in a file is expected to be the one that its parser yields (decided by C04-C08). A file with an unknown type may be rejected or give a report without a type and stack trace; a count followed by a newline is outside the space. A kernel oops text has no malformed form. Packages come from the files only: the RPM database is not asked.')
prop("C22", "File reading and writing report every failure and never lose data",
     """Reading a file returns exactly its content and writing a string stores exactly that string, however the operating system splits the transfers; any error of a system call that the data depends on leads to a failure return with an error message, without leaking
     descriptors or memory and without reporting success for partial data.""",
     ["fault_sequences"], "all sequences of short transfers, interruptions and errors injected at each system call", """Tests read and write small files on a healthy file system only.""",
     ["lib/utils.c"], [("file_to_string and string_to_file loops", "lib/utils.c")], harness=['C22'],
     level='model_checking',
     technique='exhaustive exploration of every sequence of failed, interrupted and shortened system calls, up to a number of deviations, injected into the real reading and writing functions through Syscall User Dispatch',
     rule='one execution = one text read or written under one sequence of system call outcomes; distinct_nontrivial counts distinct combinations of text and injected outcomes',
     bounds={'quick': '6 texts x all sequences of <=3 deviations (EACCES, EMFILE, EINTR, EIO, ENOSPC, ESPIPE, EOVERFLOW, nothing, one byte, half) over the first 10 system calls; writing over a missing, an empty and a longer file; round trips of all texts of <=4 characters x 4 ways of splitting every transfer; files of one byte below, at and above the limit of 20 MB, beyond 4 GB, directories, links; 42 sizes up to 1 MiB, read and written, transferred at once, by half or by single bytes', 'thorough': '<=4 deviations, round trips of <=6 characters'},
     level_note='The error returned by closing a file that was only read is not required to be reported. Files that change while they are read are outside the space.')
prop("C23", "Package names and lists are handled exactly",
     """Splitting a name-epoch-version-release-architecture string yields the parts it was composed of and rejects strings that have none; composing and splitting are inverse. Sorting a package list yields an ordered permutation, removing duplicates keeps one
     of each distinct package, and merging keeps every piece of information.""",
     ["inputs", "histories"], "all NEVRA strings over a small alphabet and all package lists up to a length", """Tests split a handful of names and sort one list.""",
     ["lib/rpm.c", "lib/abrt.c"], [("NEVRA splitting", "lib/rpm.c"), ("sort, uniq and merge", "lib/rpm.c"), ("DSO list reader", "lib/abrt.c")], harness=['C23'],
     level='model_checking',
     technique='exhaustive bounded exploration of name texts and of package lists through the real splitting, sorting, merging and list-reading functions, compared with reference definitions (pieces between dashes, set algebra over the list content)',
     rule='one execution = one text split, one package list built and processed, or one shared object list read; distinct_nontrivial counts distinct results compared',
     bounds={'quick': 'all texts of <=9 characters over {a - . : 1}; 10 names x 16 epochs x 7 versions x 6 releases x 6 architectures; all lists of <=3 packages over 7 names x 4 kinds of information, sorted or not; lists of <=6 over 4; all pairs and many triples of consistency records; shared object lists of <=3 lines over 13 kinds; names, versions, releases and epochs of up to 4097 characters; lists of up to 257 packages in 6 orders', 'thorough': 'texts of <=11, lists of <=4 and <=7, shared object lists of <=4 lines; 65537 characters, 1025 packages'},
     level_note='A version that holds a colon besides the epoch separator is outside the space. Removing duplicates is judged exactly for sorted lists; for unsorted ones only neighbours are merged. When two merged packages have different install times, either is accepted. Queries of the RPM database are the matter of C31.')
prop("C24", "Operating system identity is read exactly from release files",
     """Reading an os-release or system-release text yields the identifier, version, CPE name and variant it assigns, honouring quoting and escapes and ignoring comments and unrelated keys; Red Hat and Rawhide conventions are applied as documented. A text without identity
     is rejected.""",
     ["inputs"], "all assignments, quotings and orders of keys up to a bound", """Tests read a handful of real release files.""",
     ["lib/operating_system.c", "lib/utils.c"], [("os-release line parser", "lib/utils.c"), ("key dispatch", "lib/operating_system.c")], harness=['C24'],
     level='model_checking',
     technique='exhaustive bounded exploration of release texts through the real readers, compared with a reference reading of the os-release and system-release formats',
     rule='one execution = one text read; distinct_nontrivial counts distinct results',
     bounds={'quick': 'os-release: all texts of <=7 characters over {A = # newline quotes backslash}, all sequences of <=3 lines over 32 and of <=5 over 8, all values of <=4 characters over 8 in every quoting for every key; system-release: 16 names x 6 separators x 12 versions x 6 endings and all sequences of <=6 tokens over 9; values of up to 8193 characters in every quoting, 1025 lines, system-release names of up to 4097', 'thorough': 'texts of <=8, sequences of <=4 and <=6 lines, values of <=5, sequences of <=7 tokens; 65537 characters'},
     level_note='Texts with a repeated VERSION key, with a backslash inside of single quotes or with unterminated quotes are outside the space (the format does not define them); so are system-release texts that say "release" twice.')
prop("C25", "Text primitives compute exactly what they are named for",
     """Skipping, parsing and searching primitives, line and column counting, indentation, path joining and anonymising, duplicate removal, hexadecimal and JSON rendering, number reading and demangling agree with their simplest definition for every text, including empty, boundary and overflowing ones; numbers that do not fit are rejected and all that fit are read.""",
     ["inputs"], "all texts up to a length over a small alphabet, all argument combinations", """Tests check a few values of each primitive.""",
     ["lib/utils.c", "lib/location.c", "lib/json_utils.c"], [("scanner primitives", "lib/utils.c")], harness=['C25'],
     level='model_checking',
     technique='exhaustive bounded exploration of texts and arguments through the real primitives, compared with one-line reference definitions',
     rule='one execution = one text given to every primitive with every argument; distinct_nontrivial counts distinct texts',
     bounds={'quick': 'scanners: all texts of <=6 characters over 8 x 11 character sets x 11 words; searching, indentation and locations: all texts of <=9 over 3 characters x 43 needles; every byte; JSON strings of <=5 over 9; about 100 numbers around every limit x zeros x prefixes x suffixes; demangling: all texts of <=6 over 7; texts of 33 sizes up to 262145 x 8 units; mangled names of up to 300 characters, levels or parameters', 'thorough': 'one character more'},
     level_note='Texts run on exact-size buffers under AddressSanitizer.')
prop("C26", "Address lookups agree with the recorded memory maps",
     """Looking an address up in an unstrip module list, shared library list or ELF data yields the entry whose range contains it and nothing otherwise, for every address including range boundaries. Reading ELF tables and disassembly of valid, truncated or foreign files never goes outside the file and leaves no memory or descriptor behind.""",
     ["inputs"], "all lists of up to a few ranges with all boundary addresses; all truncations and single-byte changes of small ELF files", """Tests query one fixed module list.""",
     ["lib/unstrip.c", "lib/gdb_sharedlib.c", "lib/elves.c", "lib/disasm.c"], [("range search", "lib/unstrip.c"), ("ELF readers", "lib/elves.c")], harness=['C26'],
     level='model_checking',
     technique='exhaustive exploration of range lists, texts, synthesised ELF files and their truncations and byte changes through the real readers and lookups, compared with interval arithmetic in 128 bits and with the content the file was composed from',
     rule='one execution = one list of ranges with all probe addresses, one text, or one file; distinct_nontrivial counts distinct inputs',
     bounds={'quick': 'lists of <=3 modules, <=2 libraries, <=2 functions over 7 starts x 6 lengths around 0, the middle and the end of the address space, probed at every boundary +-2; unstrip texts of <=3 lines over 15, library listings of <=3 lines over 5 x 7 headers x 4 endings; instruction lists; ELF files with <=2 CIEs of 13 encodings, <=2 FDEs, 3 bases, 3 segment layouts; <=2 records with 32-bit or 64-bit lengths cut at every byte behind the CIE pointer; PLTs of <=2 slots x all relocation and symbol indices; all truncations and 6 values of every byte of two files; every length up to 300 of every word of an unstrip line', 'thorough': '<=4 modules, <=3 libraries and functions, <=4 lines, <=3 FDEs, all 256 values of every byte, words of up to 1100'},
     level_note='Library ranges include both ends, as GDB lists them. PLT layouts of IBT binaries (rejected with a message) are outside the space. Disassembly itself is not covered: satyr is built without libopcodes here.')
prop("C27", "Generic operations agree with the type-specific ones for every type",
     """Every generic operation on a stack trace, thread or frame behaves exactly like the operation of its concrete type, for all supported types, and type names map to types and back without loss. Operations a type lacks fail cleanly instead of crashing.""",
     ["inputs", "configurations"], "all operations times all types times small contents", """Tests exercise the generic interface with a few type and operation pairs.""",
     ["lib/generic_stacktrace.c", "lib/generic_thread.c", "lib/generic_frame.c", "lib/generic_stacktrace.c", "lib/generic_thread.c", "lib/generic_frame.c", "lib/report.c"],
     [("per-type dispatch tables", "lib/generic_stacktrace.c, lib/generic_thread.c, lib/generic_frame.c")], harness=['C27'],
     level='model_checking',
     technique='exhaustive exploration of operation histories through the generic interface in lock step with the typed operations and a plain-sequence model',
     rule='one execution = one history of generic operations (or one text or document given to generic and typed functions); distinct_nontrivial counts distinct histories and inputs',
     bounds={'quick': '7 types; traces of <=2 threads x <=3 frames, histories of <=3 operations out of 10 kinds; every single edit and truncation of the seeds and 2-token texts after each context; 22 malformed documents; all pairs of frame kinds; traces of up to 1025 frames, 129 threads and strings of up to 4097 characters', 'thorough': 'histories of <=4 operations, 3-token texts; 4097, 512 and 65536'},
     level_note='Calling an operation that a type cannot have at all (linking several threads into a single-threaded trace) is a documented assertion and not explored.')
prop("C28", "Python objects mirror the native stack trace through any edit history",
     """For every sequence of attribute, list and method operations the Python objects behave like the stack trace they represent: values read back as set, edits to thread and frame lists reach the native object, invalid values raise exceptions and leave the object unchanged, and no sequence crashes the interpreter, uses freed memory or leaves memory behind once its objects are gone.""",
     ["histories"], "all operation sequences up to a depth over the Python interface", """Tests perform fixed short scripts.""",
     ["python/py_base_stacktrace.c", "python/py_base_thread.c", "python/py_base_frame.c", "python/py_core_stacktrace.c", "python/py_gdb_stacktrace.c", "python/py_common.c", "python/py_report.c", "python/py_rpm_package.c", "python/py_metrics.c"],
     [("list linking between Python lists and native lists", "python/py_base_thread.c, python/py_base_stacktrace.c")], harness=['C28'],
     level='model_checking',
     technique='exhaustive bounded exploration of operation histories over the real Python bindings (sanitized, inside an embedded interpreter), compared after every operation with a reference model',
     rule='one execution = one history of operations on Python objects with everything read back and compared after each; distinct_nontrivial counts distinct histories and outcomes',
     bounds={'quick': 'every pair of assignments/deletions (9-15 values per attribute kind) on each of 24 classes; every history of 3 of 17-21 edits of lists of frames, threads (3 objects, shared between owners), packages, of GDB methods, of core crash threads, of reports; matrices of <=4 threads, parts <=7, dendrograms of <=4 objects; every cut and single damage of 22 texts; every method with 16 argument tuples; lists of 7-257 frames, threads, packages, authentication entries and texts, strings of 15-4096 characters of 1-4 bytes, matrices of 7-64 threads; every history with <=3 decisions other than the first option taken 20 times over without more memory', 'thorough': 'histories of 4 edits, 4 decisions, tails of the texts, lists of 1025 and strings of 65536'},
     level_note='The reference model is the Python list/attribute state itself; after each operation everything is read back through every method that looks at the native objects. Garbage collection order, threads of the interpreter and failures of allocation are not explored.')
prop("C29", "Core stack traces are assembled faithfully from unwound frames",
     """A core stack trace made from GDB output, a core dump or a dying process contains exactly the unwound frames of each thread (the 256 least recent of a long one, ending above __libc_start_main), each with the build id, offset and file of the module containing its address and the function that was executing or calling there; the crash thread is marked and the executable, signal and only-crash-thread flag are as given. What is no core dump is rejected with a message, and no memory or descriptor is left behind.""",
     ["inputs", "configurations"], "all small combinations of GDB frames and module lists, generated core dumps and processes", """Tests use one sample core dump pair.""",
     ["lib/core_unwind.c", "lib/core_stacktrace.c", "lib/core_thread.c", "lib/unstrip.c"], [("joining frames with the module list", "lib/core_stacktrace.c")], harness=['C29'],
     level='model_checking',
     technique='exhaustive bounded exploration of GDB outputs, module lists, generated core dumps and traced processes through the real unwinding code, compared with a reference stack trace',
     rule='one execution = one stack trace assembled and compared frame by frame; distinct_nontrivial counts distinct inputs',
     bounds={'quick': 'core dumps: <=3 frames over 13 places (inside, at the ends of and between functions and modules), <=3 threads x 4 signals x 3 stacks, 254-513 frames, 4 states of a module file x 4 addresses x 4 build IDs, truncation at every 8 bytes of the headers; GDB output: <=4 frames of 8 kinds or 2 threads x 2, 254-520 frames with <=2 signal handler markers, with <=2 of 5 modules; dying processes: call depths 0-400, <=440 programs, all four interfaces; processes that are gone or traced already, no standard input; 10 texts that are no GDB output and 4 that are no module list with all three interfaces', 'thorough': '<=4 frames, <=4 threads, <=5 GDB frames, <=3 markers, <=3 modules, every depth below 300, truncation at every byte of the headers'},
     level_note='Unwinding itself is done by elfutils: the generated stacks use frame pointers, without call frame information. Build IDs shorter than 3 bytes, several PT_NOTE segments and stacks that elfutils cannot unwind to their end in a dying process are outside the space; so is what stands for a signal handler marker of GDB in sr_core_stacktrace_create. The libunwind variant is not built here.')
prop("C30", "Reasons and short texts say what the stack trace contains",
     """The reason of a stack trace names exactly its exception or signal and the place it happened, and the short text lists exactly the frames of the crash thread, in order, numbered and limited as asked, each with its function, file and line, marked special or unreliable where it is. Absent parts are shown as unknown; describing a
     stack trace never changes it, and a trace without a crash thread has no short text.""",
     ["inputs"], "all stack traces with every field independently absent or present, all frame limits", """Tests compare the texts of one or two sample stack traces per kind.""",
     ["lib/generic_stacktrace.c", "lib/core_stacktrace.c", "lib/core_frame.c", "lib/gdb_stacktrace.c", "lib/gdb_thread.c", "lib/gdb_frame.c", "lib/koops_stacktrace.c", "lib/koops_frame.c", "lib/python_stacktrace.c", "lib/python_frame.c", "lib/java_stacktrace.c", "lib/java_thread.c", "lib/java_frame.c", "lib/ruby_stacktrace.c", "lib/ruby_frame.c", "lib/js_stacktrace.c", "lib/js_frame.c"],
     [("reason of each kind", "lib/*_stacktrace.c"), ("text of a frame", "lib/*_frame.c"), ("short text", "lib/generic_stacktrace.c")], harness=['C30'],
     level='model_checking',
     technique='exhaustive bounded exploration of stack trace contents through the real text functions, compared with reference texts built from the content',
     rule='one execution = one stack trace described with every frame limit; distinct_nontrivial counts distinct stack traces',
     bounds={'quick': 'frames with <=3 fields away from a typical one over 7 strings and 5-11 numbers, first and last; all header values with <=3 frames; traces of <=3 threads x <=2 frames; Java threads of <=5 frames; traces of every type with 127-1025 frames, 127-129 threads and strings up to 4097', 'thorough': '<=4 fields; Java threads of <=6 frames; traces of up to 4097 frames, 512 threads and strings up to 65536'},
     level_note='The reference texts follow the formats the library prints today.')

prop("C31", "Queries for installed packages report what the RPM database records",
     """Asking for the installed packages of a name or the owners of a file returns exactly the matching packages of the RPM database, all of them and in database order, each with its recorded name, epoch (0 if it records none), version, release,
     architecture and installation time; nothing is returned, and nothing reported wrong, when no package matches. If a matching package lacks mandatory information or the configuration cannot be read, the query fails with a message and returns nothing. Every query releases everything it does not return.""",
     ["inputs", "configurations"], "all RPM databases, names and paths, and unreadable configurations", """No test queries an RPM database.""",
     ["lib/rpm.c"], [("fields of a header", "lib/rpm.c"), ("iteration over the matches", "lib/rpm.c")], harness=['C31'],
     level='model_checking',
     technique='exhaustive bounded exploration of RPM databases: each is built with librpm in a scratch directory and queried through the real code, compared with a reference selection',
     rule='one execution = one RPM database built and queried; distinct_nontrivial counts distinct (database, query, result)',
     bounds={'quick': 'one package with <=2 departures from a typical one (7 names, 7 versions and releases, 4 architectures, 6 epochs, 5 times, each absent); every combination of absent information; databases of <=3 packages over 8 kinds x 9 names and 7 paths; <=20 matches with an incomplete one at the ends or in the middle; 4 states of configuration and database', 'thorough': '<=3 departures, <=4 packages, <=60 matches'},
     level_note='Matching is librpm\'s own: databases are made by and read through the installed librpm (sqlite). What a query says when the database itself cannot be opened is not judged beyond returning nothing.')

prop("C32", "The command line tool reports what the library computes, and every failure",
     """Every command of the satyr program does what the library function behind it does: debug duphash prints the text and the SHA-1 of the duplication hash of the three uppermost frames of the crash thread, abrt-print-report-from-dir the report of the directory, abrt-create-core-stacktrace
     writes the core stack trace file, debug normalize prints the normalised thread, each with exit status 0 and nothing else. Whatever cannot be done - an unknown command, a missing argument, an unreadable or unparsable file, a thread without a hash - ends with exit status 1 and the library's message (or a message) on standard error, without a result on standard output; no command line or file makes the program crash.""",
     ["inputs", "arguments"], "all command lines, input files and problem directories", """The tests never run the satyr program.""",
     ["satyr.c", "lib/abrt.c"], [("main and its subcommands", "satyr.c"), ("debug_duphash", "satyr.c"), ("debug_normalize", "satyr.c")], harness=['C32'],
     level='model_checking',
     technique='exhaustive bounded exploration of the program itself: satyr.c, compiled unchanged, is run in a process of its own for every enumerated command line, input file and problem directory, and its exit status, output, messages and files are compared with the reference',
     rule='one execution = one run of the program compared with the reference; distinct_nontrivial counts distinct (command line, input, output)',
     bounds={'quick': 'command lines of <=3 words over 21 words; for 6 text types every text one token removed or cut off from the seeds and one token after each context, x 3 components; core stack traces of <=2 threads of <=4 frames, 3 truncations; 6 odd files x 7 types; lists of <=3 symbols over 9 functions; problem directories of 8 types with <=2 departures; 5 core dump directories x 3 states of the output file', 'thorough': 'command lines of <=4 words after debug, tokens also doubled, swapped and replaced, 2 tokens, <=5 frames, <=4 symbols, <=3 departures'},
     level_note='The library functions behind the commands are the reference (they are judged by the other properties); abrt-report-dir is not implemented and only has to say so; unwind-from-hook is only run for threads that do not exist, because it writes into /tmp.')
