"""Configurations and, per property, what is built, run and required to be observed."""
STD = ["-std=gnu++1y"]
CONFIGS = {
    "plain": {"cxx": "g++", "flags": STD + ["-O2", "-g1", "-DNDEBUG"]},
    "clang": {"cxx": "clang++", "flags": STD + ["-O2", "-g1"]},
    # shift-base: left shift of a negative value is defined in C++20 and by gcc; only C06 treats it as undefined
    "asan": {"cxx": "clang++", "flags": STD + ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=shift-base", "-fno-sanitize-recover=all"]},
    "asan-strict": {"cxx": "g++", "flags": STD + ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]},
    "tsan": {"cxx": "clang++", "flags": STD + ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"]},
    "valgrind": {"cxx": "g++", "flags": STD + ["-O1", "-g"], "wrap": ["valgrind", "-q", "--error-exitcode=0", "--leak-check=full", "--errors-for-leak-kinds=definite"]},
}
BUILDS = {                              # C32: other compilers' choices; one that a later library does not compile with is left out
    "b-gcc-O0-14": ("g++", "-std=c++14 -O0"), "b-gcc-O3-17": ("g++", "-std=gnu++17 -O3"), "b-gcc-Os-20": ("g++", "-std=c++20 -Os"), "b-gcc-unsigned-char": ("g++", "-std=gnu++1y -O2 -funsigned-char"),
    "b-gcc-debug-library": ("g++", "-std=gnu++1y -O1 -D_GLIBCXX_DEBUG -D_GLIBCXX_DEBUG_PEDANTIC -D_GLIBCXX_ASSERTIONS"), "b-gcc-fast-math-23": ("g++", "-std=gnu++23 -O2 -ffast-math -fno-strict-aliasing -fshort-enums"),
    "b-gcc-unoptimized-signed": ("g++", "-std=gnu++1y -O0 -fsigned-char -fno-inline -ftrapv"), "b-gcc-lto": ("g++", "-std=gnu++1y -O2 -flto"),
    "b-gcc-march": ("g++", "-std=gnu++1y -O3 -march=native"), "b-clang-march": ("clang++", "-std=gnu++1y -O2 -march=native"),
    "b-gcc-old-strings": ("g++", "-std=gnu++1y -O2 -D_GLIBCXX_USE_CXX11_ABI=0"), "b-gcc-shared": ("g++", "-std=gnu++1y -O2 -fPIC"), "b-clang-static": ("clang++", "-std=gnu++1y -O1 -static"),
    "b-clang-O0-unsigned-char": ("clang++", "-std=c++14 -O0 -funsigned-char"), "b-clang-O3-20": ("clang++", "-std=gnu++20 -O3"), "b-clang-trivial-init": ("clang++", "-std=gnu++1y -O2 -ftrivial-auto-var-init=pattern"), "b-gcc-trivial-init": ("g++", "-std=gnu++1y -O2 -ftrivial-auto-var-init=pattern"),
}
for _n, (_c, _f) in BUILDS.items(): CONFIGS[_n] = {"cxx": _c, "flags": _f.split() + ["-g1"], "optional": True, "shards": 1}
CONFIGS["b-gcc-shared"]["shared"] = True
ORDINARY = {"without exceptions and type information (gcc)": ("g++", "-std=gnu++1y -O2 -fno-exceptions -fno-rtti"), "without exceptions and type information (clang)": ("clang++", "-std=gnu++1y -O1 -fno-exceptions -fno-rtti"), "without guards of static objects and exceptions": ("g++", "-std=gnu++1y -O2 -fno-threadsafe-statics -fno-exceptions")}
PLAN = {}
def plan(id, **kw):
    kw.setdefault("src", [id.lower() + ".cpp"]); kw.setdefault("configs", ["plain", "asan"]); kw.setdefault("must_see", [])
    PLAN[id] = kw
plan("C01", must_see=["steps", "codepoints_swept", "cases.texts", "cases.lengths", "cases.long", "cases.huge", "monitored.element_reads"],
     rule="well-formed texts from the hostile generator, every scalar value swept in random contexts, long texts; non-trivial: at least two codepoints, one of them multi-octet; distinct by codepoint sequence")
plan("C02", must_see=["decrements", "walks", "reverse_steps", "cases.lengths", "cases.long", "cases.huge", "monitored.element_reads"],
     rule="well-formed texts walked backwards, in reverse iterators and at random from every octet position; non-trivial: at least two codepoints, one multi-octet; distinct by codepoint sequence")
plan("C03", must_see=["compared_equal", "compared_different", "cases.texts", "monitored.element_reads"],
     rule="every ordered pair of octet positions of short texts and sampled pairs of long ones, compared in both directions; non-trivial: at least two codepoints, one multi-octet; distinct by codepoint sequence")
plan("C04", must_see=["writes", "appends", "codepoints_swept", "cases.beyond-unicode", "cases.lengths", "cases.wide-lengths", "cases.long", "cases.huge"],
     rule="every codepoint and sampled 31-bit values written through mutable iterators of several native types into guarded buffers and appended from UTF-32 in sub-ranges; non-trivial: the first value is multi-octet; distinct by value sequence")
plan("C05", must_see=["in_pieces", "acceptable", "unacceptable", "cases.short", "cases.tails", "monitored.element_reads"],
     rule="all short strings over representative octets, every last-seven-octets combination, cut well-formed texts and arbitrary octets; non-trivial: ends or starts in a non-ASCII octet; distinct by octets")
plan("C06", configs=["asan", "asan-strict", "valgrind"],
     must_see=["stepping_passes", "comparisons", "appends", "seeks", "normalizations", "malformed_inside", "well_formed", "out_of_range_texts", "lookups", "compositions_in_place", "cases.lengths", "cases.long", "cases.huge", "monitored.element_reads"],
     rule="octet strings that pass the bounds check (arbitrary inside), UTF-32 with arbitrary integers, lookups of arbitrary integers, every operation on each, over exact heap buffers (ASan, valgrind) and monitored storage; non-trivial: malformed inside, or integers out of range; distinct by content")
plan("C07", must_see=["ranges", "ranges_inside_codepoints", "ranges_empty", "self_appends", "truncations", "chains", "utf32_ranges", "cases.lengths", "cases.long", "cases.huge", "monitored.element_reads"],
     rule="every pair of octet positions of short texts, sampled pairs of long ones, each storage as source, owned and monitored destinations with contents, self-appends; non-trivial: at least two codepoints, one multi-octet; distinct by codepoint sequence")
plan("C08", must_see=["graphemes", "clusters", "class_pairs", "codepoint_pairs", "codepoints_swept", "cases.lengths", "cases.long", "cases.huge", "monitored.element_reads"],
     rule="all pairs and triples of break classes, every codepoint between discriminating neighbours, hostile and long texts, both encodings, all storages; non-trivial: some grapheme has several codepoints; distinct by codepoint sequence")
plan("C09", must_see=["seeks", "compared_same", "compared_other", "grapheme_appends", "truncations", "cases.lengths", "cases.long", "cases.huge", "monitored.element_reads"],
     rule="grapheme iterators created at every position of short texts and sampled positions of long ones, compared with others and with codepoint positions, appended between; non-trivial: some grapheme has several codepoints; distinct by codepoint sequence")
for _id, _f, _n in (("C10", "d", "D"), ("C11", "c", "C"), ("C12", "D", "KD"), ("C13", "C", "KC")):
    plan(_id, src=["norm.cpp"], defs=["-DFORM='%s'" % _f],
         must_see=["normalizations", "changed", "codepoints_swept", "hangul_syllables", "pairs_swept", "mark_pairs", "cases.same-class-runs", "cases.one-starter", "cases.texts", "cases.lengths", "cases.long", "cases.huge", "monitored.element_reads"],
         rule="form %s of every codepoint in contexts, all Hangul syllables and spellings, every composing pair with marks and starters in between, mark runs, hostile and long texts, against the standard's algorithm on the whole text; non-trivial: the text is not already in form %s; distinct by codepoint sequence" % (_n, _n))
plan("C14", must_see=["chains", "chains3", "equivalent_pairs", "rewrites", "order_kept", "blockers_kept", "mapped_swept", "cases.lengths", "cases.long", "cases.huge", "monitored.element_reads"],
     rule="every codepoint with a mapping, Hangul, composing pairs, mark runs and hostile texts: all sixteen two-form chains, sampled three-form chains, canonically equivalent rewritings in all forms, marks of equal class and blocking starters permuted; non-trivial: form KD changes the text; distinct by codepoint sequence")
plan("C15", must_see=["filters", "reports_of_other_types", "keeping_operations", "filter_calls", "empty_ranges", "form_counts", "counts_differing_from_input", "grapheme_counts", "decomposition_counts", "cases.lengths", "cases.long", "cases.huge", "monitored.element_reads"],
     rule="filters over vectors, lists, single-pass and stream iterators, codepoints and graphemes with operations reporting none, one, many or negative amounts, logged call by call; every form and single decomposition counted against what it appended; non-trivial: form KD changes the number of codepoints; distinct by codepoint sequence")
plan("C16", must_see=["configurations", "comparisons", "neighbourhoods", "beyond_unicode", "position_pairs", "codepoints_swept", "cases.lengths", "cases.long", "cases.huge", "monitored.element_reads"],
     rule="each text in eight storages over both encodings plus views among hostile neighbours, results collected in both encodings and compared with each other; non-trivial: at least two codepoints, one of them multi-octet; distinct by codepoint sequence")
plan("C17", must_see=["codepoints", "outside", "mapping_lookups", "pair_lookups", "pairs_defined", "raw_pairs", "resembling_arguments", "resembling_pairs", "held_decompositions"],
     rule="all codepoints in two orders and in random order, integers outside Unicode by pattern and at random, every pair of firsts and seconds (and their neighbours) of canonical pairs, random pairs; non-trivial: the database says something about the argument; distinct by argument")
plan("C18", must_see=["fresh_processes", "probes", "lookups", "interleaved_steps", "nested_filters", "abandoned_filters", "histories", "destinations", "rewritten_probes", "environments"],
     rule="random histories of lookups, passes, normalizations, seeks, interleaved and nested and abandoned calls over texts half of which lie in write-protected pages, every result compared with the same call made first in a fresh process; destinations with arbitrary contents; memory holding one text after the other; rounding modes, locales, errno; non-trivial: a history of 200 steps, or a non-empty text into a non-empty destination")
plan("C19", configs=["tsan", "plain"], shards={"tsan": 4, "plain": 2}, must_see=["calls_begun_while_another_ran", "results_compared", "cases.first-calls", "cases.stress"],
     rule="processes of eight threads released together whose first library calls are of the same kind, on texts of their own and shared ones, with random pauses, under ThreadSanitizer and at full speed; distinct non-trivial: order in which the threads began their first 96 calls")
plan("C20", level="fault_enumeration", must_see=["faults_single", "faults_persistent", "bad_alloc_reached_caller", "completed_without_memory", "proper_prefixes", "repeated_into_same", "repeated_into_fresh", "operation_exceptions", "cases.lengths", "cases.long", "cases.huge"],
     rule="each operation run once complete, then again with each of its allocations failing in turn (all up to 60, otherwise the first 24, the last 4 and sampled ones), alone or with all later ones, and filters with operations throwing at every position; non-trivial: at least two codepoints; distinct by codepoint sequence")
plan("C21", needs_monitor=True, configs=["plain"], must_see=["reads.forward", "reads.backward", "reads.reverse-iterator", "reads.graphemes", "reads.codepoint-filter", "reads.grapheme-filter", "reads.seek", "reads.append", "reads.comparison", "reads.grapheme-comparison", "bounds_checks", "cases.several-huge", "cases.lengths", "cases.long", "cases.huge"],
     rule="monitored storage counts every element looked at in passes, single steps, comparisons, seeks, appends and bounds checks; at most 100 per element covered plus 400 (64 for the bounds check); non-trivial: non-empty text; distinct by codepoint sequence")
plan("C22", must_see=["string_steps", "copies", "assignments", "self_assignments", "moves", "changes", "iterator_steps", "writes", "overwrites", "overwriting_assignments", "assignments_inside", "grapheme_steps_after_writes", "grapheme_steps", "grapheme_copies", "given_ranges", "sought", "graphemes_checked", "view_steps", "overlapping_steps", "monitored.element_reads"],
     rule="random histories of copies, assignments, self-assignments, moves, steps, dereferences and writes over strings, views, iterators, graphemes and grapheme iterators, everything compared with a value model after every step; non-trivial: every history of strings or iterators; distinct by history")
plan("C23", must_see=["compositions", "compositions_that_removed", "orderings", "orderings_strict", "triples", "decompositions_mapped", "codepoints_swept", "pairs_swept", "hangul_sequences", "unordered", "cases.lengths", "cases.long", "cases.huge", "monitored.element_reads"],
     rule="composition in place called directly on every codepoint, composing pair, Hangul spelling, mark run and text (owned, monitored and shrunk strings, counters starting anywhere), ordering on every codepoint, class triples and arbitrary integers, single decompositions after arbitrary contents; non-trivial: composition changes the sequence; distinct by codepoint sequence")
plan("C25", must_see=["integers", "pairs", "containers"],
     rule="integers of the whole 32-bit range (all of them in the thorough tier), pairs equal, differing in one bit, by multiples of the Unicode range, in sign and at random, containers and algorithms of codepoints; non-trivial: every block of integers and every Unicode codepoint")
plan("C26", must_see=["pieces", "passes", "subranges", "given_ranges", "cases.lengths", "cases.long", "cases.huge", "monitored.element_reads"],
     rule="texts cut at random graphemes and codepoints, with iterators stepped to, sought from inside or given, normalized, decomposed, segmented and appended piece by piece against at once; sub-ranges against the same text alone; non-trivial: more than one grapheme; distinct by codepoint sequence")
plan("C27", configs={"quick": ["db%d" % k for k in range(8)], "thorough": ["db%d" % k for k in range(120)]}, generated=True,
     must_see=["databases", "generator_runs", "mapped_codepoints", "composing_pairs", "mapping_lookups", "pairs_defined", "normalizations"],
     rule="the pinned database and randomly changed ones (new characters, nested mappings, new tags, classes, exclusions, ranges): the repository's generators run on each, the library is built with the generated tables and every codepoint, raw pair and sampled texts are compared with the database; non-trivial: the database says something about the argument")
plan("C28", must_see=["configurations", "utf16.u16string", "utf32be.string", "utf8.allocator", "utf8.traits", "utf8.unsigned-char", "utf32.u32string", "normalizations", "conversions", "seeks", "codepoints_swept", "cases.lengths", "cases.long", "arena_allocations"], full_only=["utf8.unsigned-char", "utf32.u32string"],
     rule="texts held in two encodings the library does not have (UTF-16 in native, UTF-32 in foreign endianness) and in native strings of other element types, allocators, character traits and non-contiguous storage, every operation against the oracle or native UTF-32; non-trivial: a supplementary codepoint or a mark; distinct by codepoint sequence")
plan("C29", examples=True, must_see=["processes", "lines", "codepoints_swept", "cases.fixed", "cases.lengths", "cases.long"] + ["runs." + p for p in ("simple_iteration", "grapheme_iteration", "normalization_form_d", "normalization_form_c", "normalization_form_kd", "normalization_form_kc", "smallest_code", "truncate_on_codepoint", "truncate_on_grapheme", "normalization_form_c_utf32")],
     rule="the example programs, built from the tree with and without sanitizers, run as processes on batches of arguments (every codepoint in contexts, hostile texts, arguments up to the system's limit), every line of output against the oracle; non-trivial: at least two codepoints, one multi-octet; distinct by codepoint sequence")
plan("C32", ordinary_uses="c32min.cpp", headers_alone="alone.txt", ordinary_flags=ORDINARY, src=["c32.cpp", "c32b.cpp"], configs=["plain"] + list(BUILDS), shards={"plain": 1}, must_see=["configuration.plain", "second_unit", "texts", "normalizations", "seeks", "writes", "acceptable", "unacceptable", "lookups", "pair_lookups", "codepoints_swept", "cases.lengths", "cases.long", "monitored.element_reads"],
     rule="the library and a program of two translation units built in eighteen ways (compiler, language version, optimization, processor, shared, static, old string ABI, signedness of char, debug mode of the standard library, floating-point model, link-time optimization, patterns in uninitialised variables), each run on codepoints, pairs, texts, octet strings and integers against the oracle; non-trivial: at least two codepoints, one multi-octet; distinct by codepoint sequence")
CONFIGS["plain-first"] = dict(CONFIGS["plain"], driver_first=True); CONFIGS["unoptimized"] = dict(CONFIGS["clang"], flags=STD + ["-O0", "-g1"], driver_first=True); CONFIGS["unoptimized-gcc"] = dict(CONFIGS["plain"], flags=STD + ["-O0", "-g1"])
plan("C31", configs=["plain", "plain-first", "unoptimized", "unoptimized-gcc", "asan"], shards={"plain": 4, "plain-first": 4, "unoptimized": 4, "unoptimized-gcc": 4}, must_see=["processes", "cases.one-phase", "cases.all-phases"] + ["phase." + p for p in ("constructor of highest priority", "static constructor", "main", "thread_local destructor", "exit handler", "destructor of the first static object", "thread key destructor")],
     rule="processes that call the library in static constructors of the highest and of ordinary priority, in main, in destructors of thread_local objects, thread keys, exit handlers that run last and the destructor of the first static object, in any selection of these phases (so that each is the first one, too), linked before and after the library, optimized or not, results compared with the same calls inside main; non-trivial: at least two codepoints; distinct by codepoint sequence")
CONFIGS["work"] = {"cxx": "clang++", "flags": STD + ["-O1", "-g1", "-fno-builtin", "-fsanitize-coverage=trace-pc-guard"]}
CONFIGS["work-unoptimized"] = dict(CONFIGS["work"], flags=STD + ["-O0", "-g1", "-fno-builtin", "-fsanitize-coverage=trace-pc-guard"])   # no call is turned into a loop
plan("C30", configs=["work", "work-unoptimized"], shards={"work-unoptimized": 2}, must_see=["measurements", "small_stacks", "released", "codepoints_retention", "work.NFC", "work.composition", "work.graphemes", "memory.NFKC", "cases.two-graphemes", "cases.one-grapheme", "cases.composing", "cases.jamo"],
     rule="twenty operations in both encodings on texts that repeat a random unit 600 and 20,000 (thorough: 60,000) codepoints long, every executed edge and every octet moved by the C library counted: work per codepoint may grow threefold at most (plus 200 units), so may memory; live memory after many texts; all operations on long texts with a stack of 160 KiB; non-trivial: every unit; distinct by unit")
CONFIGS["points"] = {"cxx": "clang++", "flags": STD + ["-O1", "-g1", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]}
plan("C34", configs=["plain", "unoptimized"], shards={"plain": 8, "unoptimized": 4}, must_see=["processes", "calls", "cases.each", "cases.several", "cases.all"] + ["in." + x for x in ("global C++ locale with facets of its own", "rounding mode", "denormals flushed", "floating-point traps", "no environment", "other environment", "no open files", "limits", "a removed working directory", "blocked signals", "formatted streams", "handlers for new and terminate", "filled memory", "another thread", "filled stack")],
     rule="processes of their own that set up one, several or all of eighteen kinds of surroundings, then make random calls under a system-call filter and compare every result with the one in a plain process and the surroundings with what they were; non-trivial: at least two codepoints; distinct by codepoint sequence")
plan("C35", must_build="c35min.cpp", must_see=["algorithms", "parts", "graphemes", "writing_algorithms", "output_passes", "cases.texts", "cases.few-codepoints", "cases.sorted", "cases.lengths", "monitored.element_reads"],
     rule="some ninety standard algorithms and adapters over const and mutable codepoint iterators of all storages, of parts and graphemes, on hostile, repetitive, sorted and partitioned texts, algorithms that write in place or as output, against arrays of the codepoints; non-trivial: at least two codepoints, one multi-octet; distinct by codepoint sequence")
plan("C36", must_see=["native_changes", "library_changes", "followed", "passes", "normalizations", "hostile_contents", "view_changes", "null_views", "empty_views", "cases.owned8", "cases.owned32", "cases.any-octets", "cases.any-integers", "cases.views8", "cases.views32"],
     rule="random histories of changes made directly to the native object of a text (some twenty of the native strings' operations, views pointed elsewhere, cut and written under) mixed with the library's own, on well-formed texts and on arbitrary octets and integers; the native accessors compared with a shadow copy after every step, and all passes with the reference and with a text freshly built; non-trivial: every history; distinct by history")
plan("C37", must_see=["octets", "versions", "blocks", "integers", "encoded", "pairs", "pairs_together", "cases.unicode", "cases.powers", "cases.class-neighbours", "cases.any-pairs"],
     rule="the library's functions on single octets over all 256, sizes of integers in every block of 65,536 (every integer in the thorough tier), every Unicode codepoint encoded and its octets classified, the boundary rule between every codepoint that has a break class and others of all classes and between arbitrary integers; non-trivial: octets above 7F, blocks of integers or codepoints; distinct by argument")
plan("C38", configs=["plain", "clang"], must_see=["places", "far_comparisons", "seeks", "normalizations", "appends", "bounds", "codepoints_passed", "giant_graphemes", "cases.places8", "cases.places32"],
     rule="texts of 4.5 GiB (UTF-8) and 17 GiB (UTF-32) made by mapping two megabytes of hostile text again and again, so that every position has a known content: iterators, seeks, graphemes, comparisons, ranges and bounds around 2^30, 2^31, 2^32, the ends and anywhere, one pass over everything; non-trivial: a place in such a text; distinct by place")
plan("C33", configs=["points", "plain"], must_see=["interruptions", "lookups_interrupted", "readings_interrupted", "operations_interrupted", "operations_interrupted_by_operations", "calls_interrupted_everywhere", "interruptions_interrupted", "calls_afterwards", "calls_from_user_code", "cases.lookups", "cases.readings", "cases.operations", "cases.two-deep", "cases.from-user-code"],
     rule="lookups, passes, seeks, comparisons, bounds checks and normalizations interrupted by each other at every load, store and branch (coverage callbacks) and at every instruction (trap flag), once at each point in turn and at all of them, two deep, on the same, related and other arguments, and from the allocators, storage and operations that user code supplies; the interrupted call, the interrupting ones and the same calls afterwards compared with what they give alone; non-trivial: a lookup, or a text; distinct by argument")
