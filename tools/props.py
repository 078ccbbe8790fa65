#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the statements are kept)."""
import json, os
H = "include/u5e/"
S = "src/u5e/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

p("C01", "Forward iteration decodes exactly the encoded codepoints",
  "Iterating a well-formed UTF-8 text from begin to end yields exactly the codepoints it encodes, each once and in order, and reaches the end after exactly that many steps. This holds for every codepoint and neighbouring codepoint, for const and mutable iterators, for pre- and post-increment, and over std::string, string views (also views into a larger buffer, whatever surrounds them) and bare pointers. Dereferencing any number of times does not move the iteration.",
  ["inputs"], "every well-formed UTF-8 text, of any length, over every kind of native storage",
  "The tests decode about ten fixed codepoints in one 5-octet string; 1.1 million codepoints, their adjacencies, long texts and non-NUL-terminated views are never seen.",
  [H+"utf8_iterator.hpp", H+"utf8_util.hpp", H+"utf8_string.hpp", H+"utf8_string_view.hpp", H+"basic_encodedstring.hpp"],
  [("lead-octet size and payload masking", H+"utf8_iterator.hpp current_codepoint"), ("advance by codepoint size", H+"utf8_iterator.hpp forward_one_codepoint")],
  ["codepoint_begin/codepoint_end, codepoint_cbegin/codepoint_cend, operator*, ++, !="])

p("C02", "Backward iteration mirrors forward iteration",
  "From any position of a well-formed UTF-8 text, including its end, decrementing moves to the start of the preceding codepoint, so a backward pass from end to begin yields exactly the reverse of the forward pass and any interleaving of increments and decrements inside the text ends where plain index arithmetic says. Post-increment and post-decrement return the old position, the prefix forms the new one, and standard reverse iterators and algorithms built on these steps agree.",
  ["inputs", "histories"], "every well-formed UTF-8 text, every start position, every walk of ++/-- inside the text",
  "One test walks one 5-octet text back once from a position before a NUL; no view end, no random walk, no multi-octet neighbours.",
  [H+"utf8_iterator.hpp", H+"utf8_util.hpp"],
  [("skip back over continuation octets", H+"utf8_iterator.hpp rewind_one_codepoint")],
  ["operator--, operator--(int), operator++, std::reverse_iterator, std::prev/next/distance"])

p("C03", "Iterator equality means same codepoint, in both directions",
  "Two UTF-8 iterators of one well-formed text compare equal exactly when they designate the same codepoint (an iterator pointing at any octet of a codepoint designates that codepoint) or are both at the end; equality is reflexive, symmetric and transitive, and != is its negation. In particular the end position is never equal to a position inside the text, and no two different codepoints ever compare equal.",
  ["inputs"], "every well-formed text and every pair (and triple) of octet positions in it, end included",
  "The tests compare a handful of adjacent positions in one string, always with the left operand inside NUL-terminated text.",
  [H+"utf8_iterator.hpp"],
  [("compare within the octets of one codepoint", H+"utf8_iterator.hpp operator==")],
  ["operator==, operator!= on const and mutable iterators"])

p("C04", "Codepoints written as UTF-8 read back unchanged",
  "Writing any codepoint through a mutable UTF-8 iterator, or appending native UTF-32 text to a UTF-8 string, stores exactly the shortest standard UTF-8 encoding of each codepoint and nothing else, so decoding the result, forwards or backwards, yields the same sequence. For values beyond the Unicode range up to 31 bits the classical 5- and 6-octet forms are stored and read back. Consecutive write-and-increment steps place the encodings back to back and touch no octet after the last one.",
  ["inputs", "histories"], "every codepoint value 0..0x7FFFFFFF, every sequence of them, over pre-existing buffer contents",
  "The tests write one 2-octet codepoint and one ASCII string; sizes 3 and up and the size-class boundaries are never written.",
  [H+"utf8_iterator.hpp", H+"utf8_util.hpp", H+"utf8.hpp", H+"basic_encodedstring.hpp"],
  [("octet count from the value's bit length", H+"utf8_util.hpp encoded_size"), ("write proxy", H+"utf8_iterator.hpp proxyobject::operator="), ("per-codepoint encode and append", H+"utf8.hpp append_from_utf32ne")],
  ["*it = codepoint, ++it, std::copy into codepoint_begin(), append_from_utf32ne"])

p("C05", "The bounds check accepts and repairs exactly the text ends",
  "For every octet sequence, the UTF-8 bounds check returns false exactly when the text begins with a continuation octet or one of its last octets starts a codepoint that does not fit before the end (0xFE and 0xFF announcing six octets, like 0xFC); it depends only on the octets inside the range and reads a bounded number of them. Enforcing bounds returns the same verdict, leaves an acceptable text untouched, otherwise replaces with '?' only the leading continuation octets and the octets of the incomplete trailing codepoint, never writes outside the range, and leaves a text that passes the check and, if its interior was well-formed, is well-formed.",
  ["inputs"], "every octet sequence (empty, all-continuation, truncated at every point, arbitrary binary), in every surrounding memory",
  "Eight tests use three octet strings, all NUL-terminated, never empty, never truncated after the first octet of a longer codepoint.",
  [H+"utf8_bounds.hpp", H+"utf8_util.hpp"],
  [("first-octet test", H+"utf8_bounds.hpp check"), ("walk back at most six octets", H+"utf8_bounds.hpp check/enforce")],
  ["utf8_bounds<It>::check, utf8_bounds<It>::enforce, contents of the range and of its neighbours"])

p("C06", "No operation touches memory outside the text or has undefined behaviour",
  "For every text that passes the bounds check (well-formed or not inside), decoding, stepping in either direction, comparing, appending, grapheme iteration and normalization come to an end, neither read nor write any octet outside the text's range, also when nothing readable follows it, and execute no undefined behaviour. The same holds for every native UTF-32 text and for every integer given to the character-database lookups.",
  ["inputs", "histories"], "every bounds-checked octet string, every UTF-32 text, every lookup argument, every storage kind",
  "The tests run without sanitizers on NUL-terminated literals, so stray reads and undefined arithmetic cannot be seen.",
  [H+"utf8_iterator.hpp", H+"utf8_util.hpp", H+"utf8.hpp", H+"utf8_bounds.hpp", H+"basic_encodedstring.hpp", H+"basic_grapheme_iterator.hpp", H+"canonical_composition.hpp", H+"codepoint_decomposition.hpp", S+"props/*.cpp"],
  [("bounds validated once, at the border (README: bound checks)", H+"utf8_bounds.hpp"), ("no dereference at the end position", H+"utf8_iterator.hpp, basic_grapheme_iterator.hpp")],
  ["AddressSanitizer, UndefinedBehaviorSanitizer, valgrind, bounds-monitoring native iterator"])

p("C07", "Appending a range keeps whole codepoints only",
  "Appending a codepoint range of a well-formed UTF-8 text to a string adds exactly the octets of the codepoints from the one the first iterator designates up to, not including, the one the last iterator designates, even when either iterator points into the middle of a codepoint; truncating at an arbitrary octet therefore yields the longest prefix of whole codepoints that fits. The existing contents of the destination are kept unchanged in front, whichever storage type source and destination have, also when the source is the destination itself.",
  ["inputs", "histories"], "every well-formed text, every pair of octet positions, every destination content, every storage pairing",
  "append is only exercised by one test on one-octet codepoints; the truncation example is built but never run.",
  [H+"basic_encodedstring.hpp", H+"utf8.hpp", "examples/truncate_on_codepoint.cpp"],
  [("snap a native position back to its codepoint start", H+"utf8.hpp native_const_iterator"), ("delegated native append", H+"basic_encodedstring.hpp append")],
  ["append(first,last), append<Storage>(first,last), native_string afterwards"])

p("C08", "Grapheme iteration partitions the text at the standard boundaries",
  "Iterating graphemes from begin to end visits consecutive, non-empty, non-overlapping codepoint ranges that together are exactly the text. A boundary lies between two adjacent codepoints exactly where the extended grapheme cluster rules of Unicode 9.0 (GB3-GB13) put it when applied to that pair, which is the library's documented reading of the emoji-modifier and regional-indicator rules. Nothing outside the text influences the result, and the iteration ends after exactly that many graphemes.",
  ["inputs"], "every text, in UTF-8 and UTF-32, owned or viewed, with any surrounding memory",
  "Two tests segment one 4-grapheme string; of 18x18 break-class pairs three are seen, and graphemes are at most two codepoints long.",
  [H+"basic_grapheme_iterator.hpp", H+"basic_grapheme.hpp", H+"props/grapheme_cluster_break.hpp", S+"props/grapheme_cluster_break.cpp", S+"props/grapheme_cluster_break_data.hpp", H+"basic_encodedstring.hpp"],
  [("pairwise boundary rule", H+"basic_grapheme_iterator.hpp is_grapheme_boundary"), ("scan forward to the boundary", H+"basic_grapheme_iterator.hpp find_end_of_grapheme")],
  ["grapheme_begin/grapheme_end, operator*, ++, codepoint_begin/codepoint_end of each grapheme"])

p("C09", "Seeking into a text lands on the grapheme that contains the position",
  "A grapheme iterator created at any position of a text, including the middle of a codepoint or of a grapheme, designates exactly the grapheme that contains that position (the same one sequential iteration visits), and at the end position it is the end. Incrementing it visits the following graphemes, comparing grapheme iterators or a grapheme iterator with a codepoint position is true exactly when they fall in the same grapheme or are both at the end, and appending between two grapheme iterators copies exactly the whole graphemes before the second one, in the source encoding.",
  ["inputs", "histories"], "every text, every octet/codepoint position, every pair of positions, every storage kind",
  "No test builds a grapheme iterator at a position or appends a grapheme range; the truncation example is built, never run, and uses an ASCII result.",
  [H+"basic_grapheme_iterator.hpp", H+"basic_encodedstring.hpp", "examples/truncate_on_grapheme.cpp"],
  [("scan backward to the boundary", H+"basic_grapheme_iterator.hpp find_start_of_grapheme"), ("grapheme-range append", H+"basic_encodedstring.hpp append"), ("containment equality", H+"basic_grapheme_iterator.hpp operator==")],
  ["grapheme iterator constructor at a position, operator==/!=, append(grapheme range)"])

for i,(id,form,f) in enumerate((("C10","D","d"),("C11","C","c"),("C12","KD","kd"),("C13","KC","kc"))):
    kw = "compatibility" if "K" in form else "canonical"
    files=[H+"normalization_form_%s.hpp"%f, H+"codepoint_decomposition.hpp", H+"canonical_combining_order.hpp", S+"props/canonical_combining_class.cpp", S+"props/canonical_combining_class_data.hpp"]
    if "K" in form: files += [H+"compatibility_and_canonical_decomposition.hpp", S+"props/compatibility_and_canonical_decomposition_mapping.cpp", S+"props/compatibility_and_canonical_decomposition_mapping_data.hpp"]
    else: files += [H+"canonical_decomposition.hpp", S+"props/canonical_decomposition_mapping.cpp", S+"props/canonical_decomposition_mapping_data.hpp"]
    mech=[("per-codepoint full %s decomposition"%kw, H+"codepoint_decomposition.hpp"),("canonical ordering by combining class", H+"normalization_form_%s.hpp"%f)]
    if "C" in form:
        files += [H+"canonical_composition.hpp", S+"props/canonical_composition_mapping.cpp", S+"props/canonical_composition_mapping_data.hpp"]
        mech.append(("in-place canonical composition", H+"canonical_composition.hpp"))
    st = {"D":"Normalizing any text grapheme by grapheme in form D gives exactly the Normalization Form D of Unicode 9.0 (UAX #15) of the text: full canonical decomposition, Hangul syllables included, with every run of combining marks in stable canonical order and no starter moved. The result is the same for UTF-8 and UTF-32 text and for texts and combining sequences of any length.",
          "C":"Normalizing any text grapheme by grapheme in form C gives exactly the Normalization Form C of Unicode 9.0 (UAX #15) of the text: canonical decomposition and ordering followed by canonical composition of every unblocked pair, composition exclusions and Hangul included. The result is the same for UTF-8 and UTF-32 text and for texts and combining sequences of any length.",
          "KD":"Normalizing any text grapheme by grapheme in form KD gives exactly the Normalization Form KD of Unicode 9.0 (UAX #15) of the text: full compatibility decomposition (all compatibility mappings of the character database, whatever their formatting tag, and Hangul), with combining marks in stable canonical order. The result is the same for UTF-8 and UTF-32 text and for texts and combining sequences of any length.",
          "KC":"Normalizing any text grapheme by grapheme in form KC gives exactly the Normalization Form KC of Unicode 9.0 (UAX #15) of the text: full compatibility decomposition (whatever the formatting tag), canonical ordering, then canonical composition of every unblocked pair, exclusions and Hangul included. The result is the same for UTF-8 and UTF-32 text and for texts and combining sequences of any length."}[form]
    p(id, "Normalization Form %s equals the standard's, for every text"%form, st,
      ["inputs"], "every text over all codepoints, in UTF-8 and UTF-32",
      "One or two tests normalize one short string each; no Hangul, no blocked or discontiguous sequence, no run of more than two marks, a dozen of 17,000 database entries.",
      files, mech, ["u5e::filter over graphemes with normalization_form_%s, output string"%f])

p("C14", "Normalization is idempotent and decides equivalence",
  "For every text, normalizing an already normalized text in the same form changes nothing; composing a decomposed text (or decomposing a composed one) gives the same result as normalizing the original directly, in all four forms and their combinations. Canonically equivalent texts, such as those that differ in the order of combining marks of different class or in precomposed versus decomposed spelling, normalize to identical results, while reordering marks of equal class or inserting a blocking starter is preserved.",
  ["inputs", "histories"], "every text, every chain of normalization forms, every canonically equivalent rewriting",
  "No test normalizes twice or compares two spellings of one text.",
  [H+"normalization_form_d.hpp", H+"normalization_form_c.hpp", H+"normalization_form_kd.hpp", H+"normalization_form_kc.hpp", H+"canonical_composition.hpp"],
  [("decompose, order, compose pipeline", H+"normalization_form_*.hpp")],
  ["outputs of chained normalizations"])

p("C15", "Filtering visits each element once and reports what was produced",
  "Filtering a range calls the operation exactly once for every element, in order, with the caller's output object and on one and the same copy of the operation, so that what it keeps from one element to the next is kept, and returns the sum of what the operation reported; an empty range makes no call and returns zero. Each normalization form and each single-codepoint decomposition reports exactly the number of codepoints it appended, so a whole pass returns the number of codepoints in the result.",
  ["inputs"], "every input range, every operation producing none, one or many outputs, every text and form",
  "Six tests look at a returned count, each on one string of at most four graphemes.",
  [H+"filter.hpp", H+"codepoint_decomposition.hpp", H+"canonical_composition.hpp", H+"normalization_form_c.hpp", H+"normalization_form_d.hpp", H+"normalization_form_kc.hpp", H+"normalization_form_kd.hpp"],
  [("accumulate the operation's results", H+"filter.hpp"), ("decomposed count minus compositions", H+"normalization_form_c.hpp")],
  ["return values of filter, normalization_form_*, canonical_decomposition"])

p("C16", "Results do not depend on encoding or storage",
  "The same text held as UTF-8 or native UTF-32, in an owned string or in a view, produces the same codepoints, the same grapheme boundaries and the same result in every normalization form, and the output can be collected in either encoding with the same content. What lies in memory around a view never changes a result. This includes values that are not codepoints: up to 31 bits in UTF-8, any integer in native UTF-32.",
  ["inputs", "configurations"], "every text, every pairing of input encoding/storage and output encoding",
  "Encodings are tested separately on different strings and never compared; no test normalizes out of a view or into another encoding.",
  [H+"basic_encodedstring.hpp", H+"utf8.hpp", H+"utf32ne.hpp", H+"utf8_string_view.hpp", H+"utf32ne_string_view.hpp", H+"utf32ne_string.hpp", H+"utf8_string.hpp", H+"basic_grapheme_iterator.hpp"],
  [("encoding as a template parameter with codepoint iterators", H+"basic_encodedstring.hpp"), ("conversion only in append_from_utf32ne", H+"utf8.hpp, utf32ne.hpp")],
  ["codepoint, grapheme and normalization results of each configuration"])

p("C17", "Character database lookups agree with Unicode 9.0 for every integer",
  "For every codepoint, the combining class, grapheme cluster break class, full canonical decomposition and full compatibility decomposition returned are those derived from the Unicode 9.0 character database (algorithmic Hangul decomposition aside), and for every ordered pair the primary composite is returned exactly when the database defines one that is not excluded. Any other integer, negative or beyond the Unicode range, gets the default: class 0, Other, no decomposition, no composition. Decompositions are zero-terminated and stay valid.",
  ["inputs"], "every int argument (exhaustively 0..0x10FFFF), every pair for composition",
  "About fifteen of some 17,000 entries are looked up by tests.",
  [S+"props/canonical_combining_class.cpp", S+"props/canonical_composition_mapping.cpp", S+"props/canonical_decomposition_mapping.cpp", S+"props/compatibility_and_canonical_decomposition_mapping.cpp", S+"props/grapheme_cluster_break.cpp", S+"props/canonical_combining_class_data.hpp", S+"props/canonical_composition_mapping_data.hpp", S+"props/canonical_decomposition_mapping_data.hpp", S+"props/compatibility_and_canonical_decomposition_mapping_data.hpp", S+"props/grapheme_cluster_break_data.hpp"],
  [("binary search over generated sorted tables", S+"props/*.cpp")],
  ["props::*::resolve"])

p("C18", "Operations are pure: sources untouched, output only extended, no hidden memory",
  "Iterating, segmenting, comparing, looking up and normalizing never modify the source text, and appending or normalizing into a string only adds at its end. The result of every operation is a function of its arguments alone: it is the same whatever calls were made before it, in whatever order, on whatever other texts, and calls interleaved on several texts do not influence each other.",
  ["inputs", "histories"], "every sequence of library calls before and between the observed ones",
  "Each test case runs in its own process with a single call sequence, so no history is ever varied.",
  [H+"basic_encodedstring.hpp", H+"utf8_iterator.hpp", H+"filter.hpp", H+"normalization_form_c.hpp", H+"normalization_form_d.hpp", S+"props/*.cpp"],
  [("stateless lookups over constant tables", S+"props/*.cpp"), ("append-only output", H+"basic_encodedstring.hpp append_from_utf32ne")],
  ["source octets before/after, destination prefix, repeated results under varied histories"])

p("C19", "Concurrent use from many threads is race-free and gives sequential results",
  "Any number of threads may at the same time look up properties, and iterate, segment and normalize their own texts or share one text they only read, including the very first calls in the process: no data race occurs and every thread gets exactly the result a single-threaded run gives.",
  ["schedules", "inputs"], "every interleaving of concurrent read-only use and of writes to distinct strings",
  "The tests are single-threaded.",
  [S+"props/canonical_combining_class.cpp", S+"props/canonical_composition_mapping.cpp", S+"props/canonical_decomposition_mapping.cpp", S+"props/compatibility_and_canonical_decomposition_mapping.cpp", S+"props/grapheme_cluster_break.cpp", H+"normalization_form_c.hpp", H+"basic_grapheme_iterator.hpp"],
  [("no mutable shared state behind the lookups", S+"props/*.cpp")],
  ["ThreadSanitizer reports, per-thread results"])

p("C20", "An allocation failure or a throwing operation leaves nothing broken or leaked",
  "If memory runs out at any allocation during appending, filtering or normalizing, or the operation passed to a filter throws, the exception reaches the caller, nothing is leaked, and the source text is unchanged. The destination then holds what it held before plus a prefix, in whole codepoints, of what the complete operation would have appended, and both texts remain usable: repeating the operation into a fresh destination succeeds.",
  ["fault_sequences", "inputs"], "every allocation index at which memory can run out, every call at which the operation can throw, every text",
  "No test injects a failure.",
  [H+"filter.hpp", H+"normalization_form_c.hpp", H+"normalization_form_d.hpp", H+"normalization_form_kc.hpp", H+"normalization_form_kd.hpp", H+"utf8.hpp", H+"codepoint_decomposition.hpp"],
  [("temporaries owned by value", H+"normalization_form_*.hpp"), ("append-only output", H+"utf8.hpp append_from_utf32ne")],
  ["operator new fault injection, live-allocation balance, destination contents"])

p("C21", "A pass over a text costs work linear in its length",
  "A full forward or backward codepoint pass, a full grapheme pass, a comparison of two codepoint or grapheme positions, a seek and an append look at a number of octets bounded by a small constant times the number of octets they cover, and the bounds check looks at a bounded number of octets however long the text is. In particular every such operation on a well-formed text terminates.",
  ["inputs"], "every well-formed text, including single graphemes of many thousand codepoints",
  "No test uses a text longer than seven octets, and none counts accesses.",
  [H+"utf8_iterator.hpp", H+"utf8_bounds.hpp", H+"basic_grapheme_iterator.hpp", H+"filter.hpp", H+"basic_encodedstring.hpp"],
  [("constant-size steps", H+"utf8_iterator.hpp"), ("six-octet walk back", H+"utf8_bounds.hpp"), ("single forward scan per grapheme", H+"basic_grapheme_iterator.hpp")],
  ["octet accesses counted by a monitoring native iterator"])

p("C22", "Copies of texts, iterators and graphemes are independent values",
  "Copying, assigning (also to itself) or moving an encoded string gives a text with the same contents in the same encoding that can be changed without affecting the original. A copied iterator or grapheme designates the same position and keeps doing so while the original is advanced, rewound, dereferenced or written through, and what was read through it stays as it was read. Iterators and graphemes hold positions only: when the text is written over in place, every later step and dereference goes by the text as it is then.",
  ["inputs", "histories"], "every text and every sequence of copies, assignments and steps",
  "The tests copy-construct two strings without looking at them and never assign one.",
  [H+"basic_encodedstring.hpp", H+"utf8_iterator.hpp", H+"basic_grapheme.hpp", H+"basic_grapheme_iterator.hpp", H+"codepoint.hpp"],
  [("wrapping of the native string by value", H+"basic_encodedstring.hpp operator="), ("iterator copy constructors", H+"utf8_iterator.hpp, basic_grapheme_iterator.hpp")],
  ["contents and positions after each step of a random history"])

p("C23", "Composition and ordering steps obey the standard on any codepoint sequence",
  "Composing a native UTF-32 string in place leaves, in the range from its beginning to the returned position, exactly the canonical composition (UAX #15) of the canonically ordered sequence it held, never reads or writes outside the string, and adds to the given counter exactly the number of codepoints removed. Comparing codepoints by combining order is a strict weak order that agrees with the combining classes of Unicode 9.0, and decomposing a single codepoint appends exactly its full mapping, or itself when it has none.",
  ["inputs"], "every canonically ordered codepoint sequence, every pair and triple of codepoints, every single codepoint",
  "The in-place step is only reached through two normalization tests; ordering is never tested directly and decomposition on one codepoint.",
  [H+"canonical_composition.hpp", H+"canonical_combining_order.hpp", H+"codepoint_decomposition.hpp", H+"canonical_decomposition.hpp", H+"compatibility_and_canonical_decomposition.hpp"],
  [("single pass with output iterator behind input", H+"canonical_composition.hpp"), ("class comparison", H+"canonical_combining_order.hpp")],
  ["canonical_composition, canonical_combining_order, canonical_decomposition, compatibility_and_canonical_decomposition"])

p("C24", "Texts of different encodings cannot be mixed by mistake",
  "Appending, comparing or assigning texts or iterators of different encodings without the explicit conversion is rejected when the program is compiled, and so is wrapping a native string whose element type does not fit the encoding.",
  ["programs"], "every program that uses the library",
  "Tests only contain programs that compile.",
  [H+"basic_encodedstring.hpp", H+"encoding_assertion.hpp", H+"iterator_assertion.hpp", H+"utf8_iterator.hpp"],
  [("encoding as part of the type", H+"basic_encodedstring.hpp"), ("static assertions on the native iterator", H+"iterator_assertion.hpp")],
  ["compiler diagnostics"])

p("C25", "A codepoint is exactly its integer value",
  "For every 32-bit integer, a codepoint made from it holds and converts back to that integer; copies and assignments from codepoints or integers take over exactly the value, return the left side and leave the right side alone; and two codepoints, or a codepoint and an integer on either side, compare equal, different or ordered exactly as the integers do. A default codepoint is 0. Containers and standard algorithms of codepoints therefore give what they give for the integers.",
  ["inputs"], "every 32-bit integer and every pair of them",
  "The tests compare a dozen codepoints for equality.",
  [H+"codepoint.hpp", H+"codepoint_traits.hpp"],
  [("value wrapper with int conversion and comparison overloads", H+"codepoint.hpp")],
  ["codepoint constructors, operator=, operator int, operator==, and the built-in comparisons behind the conversion"])

p("C26", "Processing a text in pieces gives what the whole gives",
  "Cutting a text at any graphemes and normalizing, segmenting or appending the pieces one after the other into the same output, or into outputs appended afterwards, gives the same contents and the same total count as doing it at once, whether the cutting iterators were stepped to, sought from any position inside the grapheme, or given explicitly (an iterator given both ends designates exactly what lies between them, and goes on from its end); the same holds for cutting at codepoints when iterating, decomposing and appending. A sub-range of codepoints taken as a text of its own has the graphemes and normalization forms of the same codepoints alone, whatever surrounds it.",
  ["inputs", "histories"], "every text, every way of cutting it, every form, encoding and storage",
  "No test stops a pass in the middle or starts one elsewhere than at the beginning.",
  [H+"filter.hpp", H+"basic_grapheme_iterator.hpp", H+"basic_encodedstring.hpp", H+"normalization_form_*.hpp"],
  [("element by element filter without state", H+"filter.hpp"), ("seek and given-range constructors", H+"basic_grapheme_iterator.hpp")],
  ["filter over partial grapheme and codepoint ranges, append between iterators, basic_grapheme_iterator(b, e[, w[, we]])"])

p("C27", "The table generators derive exactly the database they read",
  "Running the repository's table generators on the character database files that come with the library, or on any other files in the same layout (other characters, classes, nested mappings, formatting tags, exclusions and break ranges), gives tables with which the library builds and with which every lookup and normalization agrees with those files; nothing is lost, added or left unexpanded.",
  ["inputs"], "every database in the layout of UnicodeData.txt, CompositionExclusions.txt and GraphemeBreakProperty.txt",
  "The tests never run the generators; they look at a few entries of the committed tables.",
  [S+"props/*_data.pl", S+"props/grapheme_cluster_break_data.sh", S+"props/*.cpp"],
  [("recursive expansion of mappings", S+"props/*_decomposition_mapping_data.pl"), ("exclusion rules for composition", S+"props/canonical_composition_mapping_data.pl"), ("range rows", S+"props/grapheme_cluster_break_data.sh")],
  ["lookups and normalizations of a library built with freshly generated tables"])

p("C28", "The library works the same with encodings and strings supplied by its user",
  "An encoding that offers what the library's own two offer (iterators over a native string and conversion from native UTF-32), such as UTF-16 in native or UTF-32 in foreign endianness, and a native string type with the interface of std::basic_string but its own allocator, character traits or memory layout, give the same codepoints, graphemes, seeks, appended ranges, decompositions and normalization forms as the built-in ones, and can be source or destination together with them. Only the encoding's own iterators interpret the elements.",
  ["inputs"], "every encoding and native string type with that interface, every text, every operation",
  "The tests use the two built-in encodings over standard strings and views only.",
  [H+"basic_encodedstring.hpp", H+"basic_grapheme_iterator.hpp", H+"normalization_form_*.hpp", H+"utf8.hpp", H+"utf32ne.hpp", "README.md"],
  [("encoding and storage as template parameters", H+"basic_encodedstring.hpp"), ("grapheme iteration over the encoding's const_iterator", H+"basic_grapheme_iterator.hpp")],
  ["basic_encodedstring<Encoding, NativeString> and everything that takes one"])

p("C29", "The example programs do what they document for every argument",
  "The example programs, which are the documented way of using the library, print for every argument that is well-formed UTF-8 text, of any length and in any number: its codepoints (simple_iteration), its codepoints grouped by grapheme (grapheme_iteration), or the codepoints of its normalization form (normalization_form_d, _c, _kd and _kc, the last applied grapheme by grapheme), one line each, and end with status 0; smallest_code ends with its argument's first codepoint; the programs on fixed texts print those cut at the codepoint or grapheme boundary, or normalized. They touch no memory they do not own and leak nothing.",
  ["inputs"], "every list of arguments",
  "The tests do not run the examples.",
  ["examples/*.cpp", H+"*.hpp"],
  [("documented loops and filters over argv", "examples/*.cpp")],
  ["standard output and exit status of the programs"])

p("C30", "Work and memory stay in proportion to the text",
  "Normalizing into every form, decomposing, composing, ordering marks, iterating and appending take work that grows no faster than n log n with the length n of the text, whatever it consists of: one grapheme of many thousand marks, marks of descending classes, jamo, pairs that compose, or ordinary text. Temporary memory is proportional to the text (to the grapheme, where graphemes are handled one at a time), a small fixed stack suffices whatever the length, and nothing is retained once the call and the objects it returned are gone.",
  ["inputs"], "every text of every length, every operation and encoding",
  "The longest text in the tests has a handful of codepoints, and none measures anything.",
  [H+"normalization_form_c.hpp", H+"normalization_form_d.hpp", H+"normalization_form_kc.hpp", H+"normalization_form_kd.hpp", H+"canonical_composition.hpp", H+"codepoint_decomposition.hpp", H+"basic_grapheme_iterator.hpp", H+"filter.hpp", S+"props/*.cpp"],
  [("stable sort of marks, single composing pass", H+"canonical_composition.hpp, normalization_form_*.hpp"), ("binary search in the tables", S+"props/*.cpp")],
  ["executed edges, octets moved, live and peak allocation, stack depth of each operation at two lengths"])

p("C31", "The library can be used at any time of the process",
  "Lookups, iteration, segmentation and normalization give the same results in constructors of static objects that run before main, in main, in destructors of thread-local and static objects, in exit handlers and in destructors of thread keys, in whichever of these the library is used first, and whatever the order in which the program and the library are linked.",
  ["histories"], "every phase of a process' life, every selection of phases, every link order",
  "Tests call the library from main only.",
  [S+"props/*.cpp", S+"props/*_data.hpp", H+"props/*.hpp", H+"grapheme_cluster_break.hpp"],
  [("constant-initialised tables", S+"props/*_data.hpp"), ("no objects with constructors or destructors of namespace scope", S+"props/*.cpp")],
  ["results of the public operations in each phase"])

p("C32", "Every build of the library gives the same results",
  "However the library and the program are built - by which compiler, for which language version from C++14 on, with or without optimization, with plain char signed or unsigned, with the standard library's debug mode, with relaxed floating-point, for the processor at hand, with the old string ABI, with link-time optimization, as a static or a shared library, without exceptions and run-time type information, from one translation unit or from several that all include every header, with any one of its headers included first, alone of them, twice or last - the program builds and links, and all operations give the same results, those the standard asks for.",
  ["configurations", "inputs"], "every supported compiler, option set and arrangement of translation units, every text",
  "The tests are built once, with one compiler and one set of options, each program from a single translation unit.",
  [H+"utf8_util.hpp", H+"utf8_iterator.hpp", H+"utf8_bounds.hpp", H+"utf8.hpp", H+"basic_encodedstring.hpp", H+"canonical_combining_order.hpp", H+"codepoint_traits.hpp", S+"props/*.cpp"],
  [("octets treated through masks independent of the sign of char", H+"utf8_util.hpp"), ("templates and inline functions in headers", H+"*.hpp")],
  ["results of all operations in each build, linking of a program of two translation units"])

p("C33", "Calls may interrupt one another: the library is re-entrant",
  "A library call may be interrupted on its own thread by other library calls, on the same or other text, and every one of them gives what it gives alone, as do all calls made afterwards. Property lookups, iteration, comparison, seeking, segmentation and the bounds check request no memory and, once used for the first time, take no locks, so they may run (as from a signal handler) at any instruction of any library call, lookups included. Any call, normalization included, may be made from code of the user that the library itself calls - storage and its iterators, allocators, operations given to filter - while the outer call is still half way, and several levels deep.",
  ["schedules", "inputs"], "every pair of calls, every point at which one can interrupt the other, every text",
  "Tests make one call after the other; no test calls the library from a signal handler, allocator or iterator.",
  [S+"props/*.cpp", H+"normalization_form_c.hpp", H+"normalization_form_d.hpp", H+"normalization_form_kc.hpp", H+"normalization_form_kd.hpp", H+"codepoint_decomposition.hpp", H+"basic_grapheme_iterator.hpp", H+"utf8_iterator.hpp", H+"utf8_bounds.hpp", H+"filter.hpp"],
  [("lookups in constant tables, no memo", S+"props/*.cpp"), ("working memory in automatic variables", H+"normalization_form_*.hpp, codepoint_decomposition.hpp")],
  ["results of the interrupted call, of the interrupting one and of the same calls afterwards, allocations requested by reading calls"])

p("C34", "The surroundings do not matter, and are left as they were",
  "Lookups, iteration, segmentation, bounds checks, appending and normalization give the same results whatever the process's surroundings: the locale of the program, of the thread and of C++, rounding mode, flushing of denormals and floating-point traps, environment variables (or none), the working directory, open files, limits, blocked signals, state of the standard streams, handlers for new and terminate, what freed memory and the stack contain, which thread and which user makes the call. The library consults none of them, reads no files, clocks or random numbers, prints nothing, makes no system calls other than for memory (and waiting for other threads), and leaves all of them as they were.",
  ["configurations", "inputs", "faults"], "every text and operation, every combination of surroundings",
  "The tests run in the C locale with default rounding, files and limits.",
  [S+"props/*.cpp", H+"utf8_util.hpp", H+"utf8_bounds.hpp", H+"utf8_iterator.hpp", H+"basic_grapheme_iterator.hpp", H+"normalization_form_c.hpp", H+"normalization_form_kc.hpp", H+"canonical_combining_order.hpp"],
  [("tables compiled into the library", S+"props/*.cpp"), ("sizes from integer arithmetic", H+"utf8_util.hpp")],
  ["results in each surrounding, system calls made, facilities called, surroundings before and after"])

p("C35", "Standard algorithms work on texts as on arrays of codepoints",
  "Given the codepoint iterators of a text - const or mutable, of any encoding and storage, of the whole text, a part or a grapheme - every standard algorithm, iterator operation (distance, advance, next, prev), reverse iterator and container or string made, assigned, appended or inserted from the range gives what it gives over an array of the text's codepoints: the same answers and the same positions. Algorithms that write through mutable iterators codepoints of the encoded size of those they replace (replace, transform, fill, generate, copy) leave the text with what the array would hold; writing codepoints of any sizes one after the other through one iterator leaves exactly their encoding, ends just behind it and touches nothing else.",
  ["inputs", "sequences"], "every text, every position in it, every algorithm",
  "The tests compare single iterations over a few literals; algorithms combine copying, comparing, stepping both ways and assigning in ways of their own.",
  [H+"utf8_iterator.hpp", H+"utf32ne.hpp", H+"basic_encodedstring.hpp", H+"basic_grapheme.hpp", H+"codepoint.hpp"],
  [("iterator typedefs: bidirectional category, difference type, value type", H+"utf8_iterator.hpp"), ("proxy object for assignment", H+"utf8_iterator.hpp")],
  ["answers and positions of some ninety algorithm calls per range, contents after writing algorithms, octets and end position after output"])

p("C36", "The native object is the text, and its owner may manage it directly",
  "A text is the native string or view it wraps and nothing else. Building one from a native object (also implicitly), copying and assigning keep every element as it is, whether or not the elements are a valid text; the native iterators delimit exactly the elements of native_string; a view designates exactly the memory it was given. The public native_string may be changed directly at any time, by any operation of its type (resized, erased, inserted into, replaced, swapped, assigned, moved out and back, overwritten; a view pointed elsewhere, shortened, or its memory written to), before, between and after the library's own operations: iteration in both directions, segmentation, appending, conversion and normalization then give what they give for a text freshly built from the present contents, and what the library wrote is exactly what the native object holds. This includes empty texts and default-constructed ones.",
  ["histories", "inputs"], "every history of native and library operations, every content",
  "The tests build each text once from a literal and never touch native_string again except to read it.",
  [H+"basic_encodedstring.hpp", H+"utf8.hpp", H+"utf32ne.hpp"],
  [("This member is public because you should be able to completely manage the native object if you need to.", H+"basic_encodedstring.hpp"), ("simply wrapping the native string type", H+"basic_encodedstring.hpp")],
  ["native contents and accessors after every step, iteration, segmentation and normalization of what is then there, addresses views point to"])

p("C37", "The building blocks agree with the encoding and the rules for every argument",
  "For every octet, what utf8_util says of it (7-bit, continuation, first of a sequence, size of the sequence it begins, never more than 6) agrees with the encoding scheme. For every integer from 0 on, encoded_size is the number of octets that writing it takes and the size that its first octet announces, and every one of the octets is classified accordingly; for negative ones it is 6. The boundary rule between two adjacent codepoints gives the standard's answer for every pair of integers. The version that the library reports when running is the one its headers state.",
  ["inputs"], "every octet, every 32-bit integer, every pair of codepoints",
  "The tests look at a handful of octets and sizes; the functions are used wherever octets are read or written.",
  [H+"utf8_util.hpp", H+"utf8.hpp", H+"basic_grapheme_iterator.hpp", H+"version.hpp"],
  [("Basic operations necessary for implementing utf8", H+"utf8_util.hpp"), ("it's impossible for something more than 6 elements away", H+"utf8_bounds.hpp")],
  ["answers for all octets, integers and pairs, octets written"])

p("C38", "Texts may be of any size the machine can address",
  "In a text of more than 2^31 or 2^32 elements - octets or codepoints - everything holds that holds in a short one: at every position, and around the powers of two in particular, iteration in both directions reads the codepoints that are there and visits all of them, positions compare equal exactly when they are in the same codepoint however far apart they are, seeking finds the grapheme, graphemes have their boundaries and compare as they should, ranges are appended and normalized as in a text of their own, and the bounds check looks at the real ends. Only counts that the interface returns as int are limited by it.",
  ["inputs"], "every text size, every position",
  "The longest text in the tests has a few dozen octets.",
  [H+"utf8_iterator.hpp", H+"utf32ne.hpp", H+"basic_grapheme_iterator.hpp", H+"basic_encodedstring.hpp", H+"utf8_bounds.hpp"],
  [("difference_type and positions", H+"utf8_iterator.hpp")],
  ["codepoints read, positions compared, graphemes and ranges around chosen elements of texts of 4.5 and 17 GiB"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
