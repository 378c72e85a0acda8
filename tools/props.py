# The properties, how each is decided, and what its check runs.  tools/gen.py turns this into the committed files.
PROPS = []
NOT_APPLICABLE = []


# the harnesses which also run with no standard library in the library's reach; the others need its allocator or an
# operating system
NOSTD_SOURCES = [f + ".cpp" for f in (
    "algorithms bipbuffer bits_hash cctype charconv_format charconv_parse chrono expected functional heap_stack in_streambuf istream iterators limits locks num_get "
    "optional ostream out_streambuf pool queue_model shared spans_maps storage string_model string_search string_view tuples types types2 units unordered_map unordered_set "
    "variant vector_model").split()]


def P(id, title, statement, over, quant, why, files, mech, sources, cases, rule, design, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=["src/estd/" + f for f in files], mech=[(a, "src/estd/" + b) for a, b in mech],
                      sources=sources, cases=cases, rule=rule, design=design, **kw))


P("C01", "Text to integer parsing agrees with the standard for every type and base",
  "For every integer type, every base from 2 to 36 and every character range, parsing accepts the longest valid numeral, reports how far it read, and either stores exactly the value written or leaves the destination untouched. "
  "Numerals outside the type's range are reported as out of range and consumed whole; text with no numeral is reported as invalid and consumes nothing.",
  ["inputs"], "all character ranges, integer types of 8 to 64 bits signed and unsigned, bases 2..36, initial destination values",
  "Tests parse a handful of short decimal strings; limits, other bases, partial numerals and destinations left untouched need whole input spaces.",
  ["charconv.h", "internal/charconv/from_chars.hpp", "internal/raise_and_add.h"],
  [("overflow detection while accumulating digits", "internal/raise_and_add.h"), ("digit recognition per base", "internal/charconv/base_provider.h")],
  ["charconv_parse.cpp"], 8000000,
  "text drawn from rendered boundary values, values just beyond the type's range, grammar-shaped digit strings and noise; non-trivial = more than one character is consumed",
  "text in every base around each type's limits, one past them, random numerals with trailing noise; the oracle is std::from_chars, compared on error, value, end position and untouched destination. The input sits in an exact-size heap block so any overread is caught by AddressSanitizer.",
  technique="differential property-based testing against std::from_chars")

P("C02", "Integer to text conversion is exact, bounded and round trips",
  "Rendering any integer of any type in any base from 2 to 36 produces exactly the numeral the standard prescribes, for every value including the lowest of signed types. "
  "Output that does not fit the given range is reported as too large and nothing outside the range is ever written; parsing the rendered text gives back the value.",
  ["inputs"], "all values of all integer types, bases 2..36, output buffers of any size",
  "Tests render a few small values into generous buffers; extremes, tight buffers and unusual bases are not sampled.",
  ["charconv.h", "internal/charconv/to_chars.hpp", "internal/to_string.h", "internal/charconv/reverse.hpp"],
  [("digit generation and bounds check", "internal/charconv/to_chars.hpp"), ("string sizing", "internal/to_string.h")],
  ["charconv_format.cpp"], 3000000,
  "values of every integer type biased to boundaries, every base 2..36, buffers from empty to larger than needed; non-trivial = rendering has more than one character",
  "values biased to boundaries and powers of two and ten, every base, every buffer size from empty to larger than needed in exact-size heap blocks with guard bytes; the oracles are std::to_chars and a round trip through the parser.",
  technique="differential and round-trip property-based testing against std::to_chars")

P("C03", "Locale-driven numeric input reads exactly one numeral from any stream text",
  "Reading an integer, floating point or boolean value from a character range consumes exactly the characters that belong to it under the stream's base and boolean format, and yields that value. "
  "Overflow, absence of digits and end of input are each signalled through the state flags, and the result does not depend on how the characters are delivered.",
  ["inputs", "configurations"], "all texts, integer types, bases 8, 10 and 16, boolean formats, and iterators over buffers and streams",
  "Tests extract a few well-formed numbers; limits, malformed text, combinations of flags and end of input positions are unexplored.",
  ["locale.h", "internal/locale/num_get.h", "internal/chooser.h", "internal/raise_and_add.h"],
  [("incremental numeral recognition", "internal/locale/num_get.h"), ("name matching for booleans", "internal/chooser.h")],
  ["num_get.cpp"], 6000000,
  "numeric text near type limits, random digit strings with delimiters, floats and booleans; non-trivial = at least two digits or characters are examined",
  "numerals near each type's limits, digit strings with delimiters, decimal fractions and boolean names under generated flag settings, delivered both at once and one character at a time; a reference parser in 128-bit arithmetic decides value, end position and state.",
  technique="model-based property testing against a reference numeral parser")

P("C05", "Character classification and case mapping agree with the C locale",
  "For every character code and every combination of category masks, classification and case conversion agree with the classic locale, through the free functions, the facets and the single-character helpers alike. "
  "Digit values in every supported base agree with their mathematical meaning.",
  ["inputs", "configurations"], "all 256 character codes, all mask combinations, the locales offered, all bases",
  "Tests check a few letters; the claim ranges over every code, mask combination and locale.",
  ["locale.h", "cctype.h", "internal/locale/ctype.h", "internal/charconv/base_provider.h"],
  [("mask evaluation", "internal/locale/ctype.h"), ("digit tables", "internal/charconv/base_provider.h")],
  ["cctype.cpp"], 3000000,
  "every character code, every category mask, four locales, six bases; non-trivial = multi-category mask or a classified character",
  "uniform characters, masks and locales; the C library's classic-locale functions are the oracle.",
  technique="differential property-based testing against the C library")

P("C06", "Editing strings of every storage kind behaves like the standard string",
  "After any sequence of appends, insertions, erasures, assignments, resizes and element writes that fits the capacity, a string holds exactly the characters the standard string would, whatever its storage (inside the object, over a caller's buffer, on the heap), however its length is kept. "
  "Its length, terminator, iteration, element access, copies and equality agree with that content, and no byte outside its storage is touched.",
  ["histories", "inputs", "configurations"], "operation histories over every storage kind, capacities from a few to beyond 255 characters, text of any character value",
  "Tests make one or two edits on short literals; interplay of edits, exact-capacity content and length types of different width need generated histories.",
  ["string.h", "internal/string.h", "internal/dynamic_array.h", "internal/impl/dynamic_array.h", "allocators/fixed.h", "internal/container/specializer.h"],
  [("shared growth, insert and erase", "internal/dynamic_array.h"), ("length by terminator or by counter", "internal/impl/dynamic_array.h"), ("bulk copy", "internal/container/specializer.h")],
  ["string_model.cpp", "wide.cpp"], 4000000,
  "histories of up to 15 edits on 17 kinds, widths and capacities of string; non-trivial = at least three edits",
  "histories over 13 combinations of storage, termination and capacity (including around the 8 bit length limit), sources in different representations and the string itself; std::string is the model, compared in full after every step, with storage in exact-size heap blocks under AddressSanitizer.")

P("C07", "Searching strings finds what the standard string finds, and stays in bounds",
  "For every haystack, needle, start position and needle form (literal, counted, string, view, character), forward and backward search and search for any of a set of characters return the position the standard string returns, or the not-found value. "
  "Prefix and suffix tests are true exactly when the text begins or ends with the given text, and searching never changes or reads outside either text.",
  ["inputs", "configurations"], "haystacks, needles, positions including past the end, every string kind and needle form",
  "Tests search a few literals; overlapping matches, empty texts, needles longer than the text and offsets are corner cases of a large space.",
  ["internal/runtime_array.h", "internal/string.h", "internal/container/starts_with.h", "internal/container/ends_with.h", "algorithm.h"],
  [("search loops", "internal/runtime_array.h"), ("prefix and suffix comparison", "internal/container/starts_with.h"), ("reverse set search", "algorithm.h")],
  ["string_search.cpp", "wide.cpp"], 4000000,
  "repetitive two-letter texts so partial and overlapping matches are common, needles cut from the text, mutated or longer than it; non-trivial = the needle occurs in the haystack and is not empty",
  "texts over a tiny alphabet in all string kinds, needles that are substrings, near misses or longer than the text, every start position and the default; std::string decides.",
  technique="differential property-based testing against std::string")

P("C08", "String views, constant strings and text-to-integer functions match the standard",
  "A view or constant string presents exactly the characters it was made from, under any sequence of prefix and suffix removal, sub-view (with counts that may exceed what remains), copying, iteration and comparison, without copying or touching text outside it. "
  "Reading integers from terminated strings yields the value and consumed length the C library gives in every base.",
  ["histories", "inputs"], "histories of view operations over any text, all texts and bases for conversions",
  "Tests look at single operations on short literals.",
  ["string_view.h", "string.h", "internal/layer2/string.h", "internal/layer3/string.h", "internal/impl/dynamic_array.h"],
  [("offset and size adjustment", "allocators/fixed.h"), ("sub-view", "string_view.h"), ("integer conversions", "string.h")],
  ["string_view.cpp"], 4000000,
  "histories of view adjustments, both constant string kinds up to hundreds of characters, numeric text with prefixes and signs; non-trivial = at least two narrowing steps, or more than one character involved",
  "histories of view operations against std::string_view over exact-size heap blocks; constant strings of both kinds including beyond 255 characters; integer conversions against strtol and strtoul.",
  technique="stateful differential property-based testing against std::string_view")

P("C09", "Vectors of every storage kind behave like the standard vector",
  "After any sequence of insertions (copied, moved, constructed in place or as a range) at any position, erasures, appends, resizes and element writes that fits the capacity, a vector of plain values holds exactly the elements the standard vector would, whatever its storage. "
  "Size, emptiness, iteration, element access and equality agree with that content, and no byte outside its storage is touched.",
  ["histories", "configurations"], "operation histories over four storage kinds and element types of 2 to 8 bytes",
  "Tests make a few insertions of small integers; element width, position and growth interplay need histories.",
  ["vector.h", "internal/dynamic_array.h", "internal/impl/dynamic_array.h", "allocators/fixed.h"],
  [("shifting on insert and erase", "internal/dynamic_array.h"), ("growth", "internal/dynamic_array.h")],
  ["vector_model.cpp"], 4000000,
  "histories of up to 25 edits on eight combinations of storage and element type; non-trivial = at least four edits",
  "histories over storage inside the object, over fixed and run-time sized buffers and on a growing heap block, with elements of 2, 4 and 8 bytes; std::vector is the model, compared in full after every step.")

P("C10", "Circular queues keep order and object lifetimes through any history",
  "After any sequence of additions and removals at either end, a fixed-capacity deque or queue holds exactly the surviving elements in order, and its ends, size and iteration agree with that. "
  "Adding to a full container or removing from an empty one is refused and changes nothing; every element is constructed once and destroyed once, also when the container is moved or destroyed.",
  ["histories", "configurations"], "operation histories long enough to wrap around, capacities 1 to 9, plain and lifetime-tracked elements",
  "Tests push and pop a few numbers; wrap-around, full and empty edges and element lifetimes depend on the history.",
  ["queue.h", "internal/array.h"],
  [("position rollover and the empty flag", "queue.h")],
  ["queue_model.cpp"], 6000000,
  "histories of up to 30 operations on seven combinations of capacity and element type; non-trivial = at least three additions and a removal from the front (deque) or two removals (queue)",
  "histories over capacities 1 to 9 against std::deque, compared in full after every step; elements count constructions and destructions, so a leak, a double destruction or use of a dead slot fails at once.")

P("C11", "Heaps, priority queues and stacks always serve the right element",
  "Whatever was pushed, popped, emplaced or erased, a heap of any arity keeps its ordering and its elements, a priority queue's top is never outranked under its own comparator, and a stack serves last in first out. "
  "No element is lost, duplicated or altered, for any comparator including stateful ones, and assignment carries contents and ordering along.",
  ["histories", "configurations"], "operation histories, heap arities 2 to 5, empty and single ranges, ties, stateless, stateful and function comparators",
  "Tests build one small heap and pop it; ties, arity, emptiness, erasure positions and comparator state need many histories.",
  ["internal/algorithm/heap.h", "internal/priority_queue.h", "stack.h", "utility.h"],
  [("sift up and down", "internal/algorithm/heap.h"), ("rebuild after erase", "internal/priority_queue.h")],
  ["heap_stack.cpp"], 5000000,
  "ranges of up to 24 values with many ties and histories of up to 30 operations; non-trivial = at least three steps on a populated heap, two removals, or four elements drained from a k-ary heap",
  "the heap condition and the multiset of elements are checked after every operation, the drained order against the comparator; priority queues and stacks run against plain vectors as models, with four kinds of comparator.")

P("C12", "Sequence algorithms and fixed arrays match the standard library",
  "Every searching, comparing, copying, filling, reversing, folding, swapping and min/max algorithm gives the result the standard prescribes for every range, including empty and overlapping ones, and touches nothing outside it. "
  "A fixed array's element access, ends, iteration, fill, copy and comparison agree with its contents.",
  ["inputs", "configurations"], "all ranges of values with repeats, forward and bidirectional iterators, sub-range positions, predicates and value types",
  "Tests call each algorithm once on a literal; tie-breaking, empty ranges, overlaps and iterator categories are not sampled.",
  ["algorithm.h", "internal/algorithm/raw.h", "numeric.h", "array.h", "internal/array.h", "utility.h"],
  [("searches and copies", "algorithm.h"), ("element extremes", "internal/algorithm/raw.h"), ("array access", "internal/array.h")],
  ["algorithms.cpp"], 6000000,
  "repetitive ranges of up to 16 values, needles cut from the range, sub-range bounds chosen at random; non-trivial = a proper match exists, at least two elements move, or at least three elements are compared",
  "differential against the std algorithms through iterators that refuse any step or access outside the range and offer only their category's operations; ties are told apart by element identity.",
  technique="differential property-based testing against the standard algorithms")

P("C13", "Byte, flag, byte order and hash primitives are exact for every value",
  "Byte operators, flag sets and byte-order swaps compute exactly the bitwise result for every operand of every width. "
  "Hashing follows the published Fowler-Noll-Vo definition for any bytes, can be continued piecewise, and depends only on the characters, never on how a string is stored or whether characters are signed.",
  ["inputs"], "all operand values and shift distances, byte sequences up to 40 with high bytes, every split point, five string kinds",
  "Tests check two or three constants; high bytes, splits and storage kinds need generated data.",
  ["bit.h", "internal/raw/cstddef.h", "flags.h", "internal/functional/hash.h", "internal/string/hash.h"],
  [("hash loops", "internal/functional/hash.h"), ("flag operators", "flags.h"), ("byte operators", "internal/raw/cstddef.h")],
  ["bits_hash.cpp"], 5000000,
  "full-range operands biased to boundaries, byte strings up to 40; non-trivial = swapped value differs, operands are non-zero and different, or at least two bytes are hashed",
  "direct bitwise formulas, byte images of swapped integers, and an independent one-multiplication-per-byte hash as oracles; hashing of a prefix followed by the rest must equal hashing the whole.")

P("C14", "Linked lists keep exactly their nodes, in order, and reuse is safe",
  "After any history of additions, insertions, removals by position, value or predicate, and reuse of freed nodes, every kind of linked list visits exactly its surviving nodes in order and ends; front, back, emptiness and backward steps agree. A list that owns its nodes destroys an element and gives its node back when it is removed, once. "
  "References sharing one value through a ring always agree on their number, and the value is destroyed exactly once, when the last of them goes, however they were copied, moved or dropped.",
  ["histories", "configurations"], "operation histories over intrusive, owning, back-tracking, doubly linked, headless and circular lists, and shared reference rings",
  "Tests build lists of three nodes once; adjacent removals, running empty, node reuse and drop orders depend on the history.",
  ["forward_list.h", "list.h", "internal/list_node.h", "internal/list/intrusive_forward.h", "internal/list/base.h", "iterators/list.h", "internal/linked_ref.h", "traits/list_node.h"],
  [("unlinking", "forward_list.h"), ("front and back bookkeeping", "internal/list_node.h"), ("ring maintenance", "internal/linked_ref.h")],
  ["lists.cpp"], 12000000,
  "histories of up to 24 operations over pools of 6 or 8 reusable nodes; non-trivial = at least three additions and one or two removals (lists), an insertion into four or more elements (double), two copies (references)",
  "histories against a vector of node identities, compared in full after each step with a bound on iteration so that cycles are caught; owning nodes are counted through their allocator and elements through their constructors; reference rings against a count of holders per value.")

P("C15", "Hash maps hold exactly one entry per key through any history",
  "After any sequence of insertions, assignments, erasures, garbage collection and clearing, a fixed-capacity hash map contains exactly the keys and values a map should, however keys collide and however large the table, and every lookup, count, bucket walk and iteration agrees. "
  "An insertion is refused only when the key's bucket region is full, and then changes nothing; plain erasure and insertion never move other entries, while gc_active moves an entry up to a place freed before it in its bucket; mapped values are constructed once and destroyed once; the null key is never present.",
  ["histories", "configurations"], "operation histories under good, colliding and end-of-table hashes, capacities 8 to 260 and 36000, several key, value and storage kinds",
  "Tests insert six keys in one fixed order; collisions, overflowing buckets, the end of the table and reuse after erasure depend on the history.",
  ["internal/container/unordered_map.h", "internal/container/unordered/base.h", "internal/container/unordered/traits.h", "unordered_map.h"],
  [("probing and duplicate detection", "internal/container/unordered/base.h"), ("sparse marking and pruning", "internal/container/unordered_map.h"), ("relocation", "internal/container/unordered/traits.h")],
  ["unordered_map.cpp"], 1500000,
  "histories of up to 50 operations over 8 to 30 keys in 13 configurations, plus histories with permitted duplicates; non-trivial = at least four entries added and one erased (duplicates: at least one of each)",
  "std::map (std::multimap for permitted duplicates) is the model; after each step all keys, bucket sizes, iteration and entry addresses are compared, and element lifetimes counted. Refusals are legitimate only with a full bucket or after an earlier overflow, which the model tracks.",
  technique="stateful model-based property testing against std::map")

P("C16", "Hash sets hold exactly their keys, and equality ignores history",
  "After any sequence of insertions and erasures, a fixed-capacity hash set contains exactly the keys a set should, each once, however they collide, and size, lookup, count and iteration agree. "
  "An insertion is refused only when the key's bucket region is full; two sets compare equal exactly when they hold the same keys, in whatever order these were added.",
  ["histories", "configurations"], "operation histories under good, colliding and end-of-table hashes, capacities 10 to 20",
  "Tests add two keys to one set; collisions, compaction after erasure and the end of the table depend on the history.",
  ["internal/container/unordered_set.h", "internal/container/unordered/base.h", "internal/container/unordered/traits.h", "unordered_set.h"],
  [("probing", "internal/container/unordered/base.h"), ("compaction on erase", "internal/container/unordered/base.h")],
  ["unordered_set.cpp"], 1500000,
  "histories of up to 50 operations over 20 keys in five configurations, then a second set filled in shuffled order; non-trivial = at least four keys added and one erased",
  "std::set is the model, compared in full after each step; equality is tested metamorphically by refilling in another order and by changing one key.",
  technique="stateful model-based property testing against std::set")

P("C17", "Spans, buffers and fixed maps expose exactly their storage",
  "Any chain of narrowing, converting, copying and assigning views over contiguous storage denotes exactly the elements the same chain of index ranges denotes; sizes, byte views, ends and iteration agree, writes go through to that storage only. "
  "A fixed-size map finds the first entry stored under a key, yields a null result for every other key, and writing through a result changes that entry alone.",
  ["inputs", "configurations"], "chains of views over storage of 0 to 40 elements of 1 to 8 bytes, run-time and fixed extents; all key sets including repeats",
  "Tests take one view of one array; offsets, lengths, empty views and chains are not sampled.",
  ["span.h", "internal/buffer.h", "internal/legacy/array.h", "map.h"],
  [("narrowing", "span.h"), ("lookup", "map.h")],
  ["spans_maps.cpp"], 8000000,
  "chains of up to three narrowing steps at random offsets; non-trivial = a narrowing step leaves elements, or a stored key is looked up",
  "plain index arithmetic over exact-size heap blocks is the model; every element address, both ends, and the byte image are compared after each step.",
  technique="model-based property testing against index arithmetic")

P("C18", "An optional holds exactly the value last given to it, or nothing",
  "After any sequence of constructions, assignments, emplacements, resets, copies and moves, an optional is engaged exactly when a value was given and not since removed, and then yields that value; value() on an empty one throws. "
  "The held value is constructed once and destroyed once, is suitably aligned, and an exception while making a value leaves the optional either unchanged in engagement or empty. "
  "The one-byte, null-value and bit-packed representations agree with this and convert to one another; comparisons and hashes depend only on engagement and value.",
  ["histories", "inputs", "faults", "configurations"], "operation histories over copyable, nothrow-movable, non-assignable, move-only and over-aligned contents with constructor failures injected at every position; all integers for the number representations",
  "Tests make a handful of optionals; moves between engaged and empty ones, throwing constructors, representation limits and lifetime accounting are not sampled.",
  ["optional.h", "internal/optional.h", "internal/variant/storage.h"],
  [("engagement and assignment", "optional.h"), ("representations", "internal/optional.h"), ("raw storage", "internal/variant/storage.h")],
  ["optional.cpp"], 700000,
  "histories of up to 20 operations over three optionals, or 14 over one number; non-trivial = at least four operations on them (numbers: three, conversions: an engaged source)",
  "an (engaged, value) pair is the model; every live object is registered by address, so double construction, double destruction, use of dead values and leaks fail at once; injected exceptions count down over constructor calls.",
  technique="stateful model-based property testing with fault injection")

P("C19", "An expected holds either its value or its error, never both or neither",
  "After any sequence of constructions, assignments from values and unexpecteds, emplacements, copies and moves, an expected holds exactly the value or exactly the error last given, destroyed once; value() on an error throws with that error; moving moves. "
  "An exception while replacing what is held leaves it holding what it held before when that can be moved without throwing.",
  ["histories", "faults", "configurations"], "operation histories over plain, tracked and non-assignable values and errors, and void, with constructor failures injected at every position",
  "Tests construct single objects; transitions between value and error, throwing constructors and object lifetimes are not sampled.",
  ["expected.h", "internal/expected.h", "internal/variant/storage.h"],
  [("state transitions", "expected.h"), ("replacement with rollback", "internal/expected.h")],
  ["expected.cpp"], 1200000,
  "histories of up to 16 operations over two objects; non-trivial = at least four operations including a change between value and error (void: an error among three operations)",
  "an (is value, value, error) triple is the model; lifetimes are registered by address and injected exceptions count down over constructor calls.",
  technique="stateful model-based property testing with fault injection")

P("C20", "A variant holds exactly one alternative, and knows which",
  "After any sequence of constructions, assignments, emplacements, copies and moves, a variant's index names the alternative last given, its value is that value, and every accessor (by position, by type, pointer, visitor) agrees and refuses every other position, including when a type is repeated. "
  "Each alternative is constructed once, destroyed once and suitably aligned; an exception while changing alternatives leaves the variant valueless or with what it held, never with an index whose value is not alive.",
  ["histories", "faults", "configurations"], "operation histories over one to five alternatives (copyable, nothrow-movable, non-assignable, over-aligned, repeated, trivial) with constructor failures injected at every position",
  "Tests use one triple of types in one order; alternative changes, repeated types, self-assignment and throwing constructors are not sampled.",
  ["variant.h", "internal/variant.h", "internal/variant/storage.h", "internal/variadic/visitor.h"],
  [("index bookkeeping", "internal/variant.h"), ("construction and assignment", "internal/variant/storage.h"), ("dispatch by index", "internal/variadic/visitor.h")],
  ["variant.cpp"], 350000,
  "histories of up to 20 operations over three variants; non-trivial = at least four operations during which two or more alternatives were held (trivial alternatives: three operations)",
  "an (index, value) pair is the model; after each step every position of every variant is probed through every accessor; lifetimes are registered by address; a visitor records which alternative it was handed.",
  technique="stateful model-based property testing with fault injection")

P("C21", "A bip buffer is a byte queue in fixed storage that hands out contiguous runs",
  "Bytes come out of a bip buffer in exactly the order they were offered, each once, whatever the interleaving of offers, in-place writes, peeks and polls. "
  "An offer is taken whole when it fits the contiguous room reported as unused and not at all otherwise; peek and poll succeed exactly for what is readable in one piece; used is the number of unread bytes; nothing is written over an unread byte or outside the buffer. One held inside another object is aligned as it needs.",
  ["inputs", "histories"], "histories of up to 41 operations on buffers of 1 to 300 bytes, including sizes just over what fits",
  "Tests offer and poll twice; wrapping into the second region and back needs longer histories.",
  ["ext/willemt/bipbuffer/bipbuffer.c", "internal/bip/buffer.h"],
  [("regions and cursors", "ext/willemt/bipbuffer/bipbuffer.c"), ("in-place offers", "internal/bip/buffer.h")],
  ["bipbuffer.cpp"], 6000000,
  "random histories with sizes at and just past the limits; non-trivial = at least two offers taken and one poll that gave bytes",
  "a model records each unread byte with the address it was put at; the contiguous run at the front and the contiguous room are derived from those addresses alone and compared with peek, poll, used and unused after every step.",
  technique="model-based property testing against an address-tracking queue",
  libsrc=["src/estd/ext/willemt/bipbuffer/bipbuffer.c"])

P("C22", "Output stream buffers pass every character on once, in order, or refuse it",
  "Whatever mix of single characters and blocks is written to an output stream buffer, the sink receives exactly the characters reported as written, in order, each once: nothing dropped, doubled or reordered across buffer boundaries and flushes. "
  "A sink with limited room is never written past its end, the count returned is the number accepted, and a refused character is reported as end of file. Positions reported are the number of characters written and seeking within what is there moves there.",
  ["inputs", "histories", "configurations"], "histories of up to 30 writes, flushes and seeks on span, fixed string and two kinds of buffered stream buffer over sinks that accept a varying amount, for characters of 1, 2 and 4 bytes",
  "Tests write one short text; buffer boundaries, exhausted sinks, short writes and flushes in between are not sampled.",
  ["streambuf.h", "sstream.h", "internal/impl/streambuf/span.h", "internal/impl/streambuf/string.h", "internal/impl/streambuf/bipbuf.h", "internal/impl/streambuf/buffer.h"],
  [("bounded sinks", "internal/impl/streambuf/span.h"), ("string sinks", "internal/impl/streambuf/string.h"), ("write-behind", "internal/impl/streambuf/bipbuf.h")],
  ["out_streambuf.cpp", "wide_out.cpp"], 8000000,
  "random histories with sizes at and past the buffer; non-trivial = at least two writes were accepted (buffered: the sink was given something and more than one character was accepted); labels count the cases that filled the sink or crossed a buffer",
  "the sequence of accepted characters is the model; sinks are exact-size heap blocks under address sanitizer, or recording sinks that accept a generated amount.",
  technique="stateful model-based property testing against a byte sequence",
  libsrc=["src/estd/ext/willemt/bipbuffer/bipbuffer.c"])

P("C23", "Input stream buffers deliver the source, each character once, in order",
  "Through any mix of peeking, taking one, taking the next, taking blocks, putting back and seeking, an input stream buffer over a span, string or constant text yields the character of the source at its position, end of file exactly at the end, and reports positions and remaining counts accordingly, for every character value. "
  "A read-ahead buffer yields what its source yields, in order, none lost or repeated, however little the source gives at a time; iterators over a stream buffer visit the rest of the source once.",
  ["inputs", "histories", "configurations"], "histories of up to 30 reads and seeks over sources of 0 to 20 and about 65536 characters including 0, 0xff and wide ones; strings written to while read; read-ahead of 3 and 8 over a source that gives in random portions, for characters of 1, 2 and 4 bytes",
  "Tests read a short ASCII text from the start; ends, put back, mixed reads and short refills are not sampled.",
  ["streambuf.h", "sstream.h", "internal/impl/streambuf/span.h", "internal/impl/streambuf/string.h", "internal/impl/streambuf/bipbuf.h", "internal/impl/streambuf/pos.h", "internal/istreambuf_iterator.h"],
  [("get area", "internal/impl/streambuf/span.h"), ("read-ahead", "internal/impl/streambuf/bipbuf.h"), ("dispatch", "internal/impl/streambuf/helpers.h")],
  ["in_streambuf.cpp", "wide_in.cpp"], 12000000,
  "random histories; non-trivial = at least two reads gave characters and a seek or put back happened in between (read-ahead: two refills; iterators: more than two characters)",
  "the source text and a position are the model; read-ahead is compared with the feeding source's own record of what it handed out.",
  technique="stateful model-based property testing against the source text",
  libsrc=["src/estd/ext/willemt/bipbuffer/bipbuffer.c"])

P("C24", "Input streams extract, store, count and report exactly what they say",
  "Every extraction (single characters, lines, blocks, skipping, words, numbers) takes exactly the characters its definition names from the position it is at, stores them terminated and within the destination given, counts them, and sets failure and end state exactly when it ran out, found nothing, or had no room; "
  "put back and seek move to the position named and extraction then goes on from there. Words stop at white space or when the string is full; numbers honour the base and clamp on overflow.",
  ["inputs", "histories", "configurations"], "histories of up to 15 extractions over texts of up to 30-odd characters mixing white space, delimiters, words, numbers around every integer limit, NUL and 0xff; destinations smaller, equal and larger than what is read",
  "Tests read one value from a short text; line length limits, delimiters at the edge, repeated end of input and mixed operations are not sampled.",
  ["istream.h", "internal/istream.h", "internal/istream_runtimearray.hpp", "internal/ios_base.h"],
  [("unformatted extraction", "internal/istream.h"), ("formatted extraction", "istream.h"), ("words", "internal/istream_runtimearray.hpp")],
  ["istream.cpp"], 12000000,
  "random histories over three sources; non-trivial = at least three operations extracted something",
  "an index into the text, the expected state bits and count are the model; destinations are exact-size heap blocks or guarded.",
  technique="stateful model-based property testing against the source text",
  libsrc=["src/estd/ext/willemt/bipbuffer/bipbuffer.c"])

P("C04", "Output streams render each value in full, padded as asked, or report failure",
  "Each integer written comes out as its exact digits in the base in force (with sign, in the letter case asked for), padded with the fill character to the width in force on the side in force, and the width applies once; characters, texts, strings, views, blocks, pointers and manipulators come out in call order. "
  "The sink receives exactly that, or the leading part that fits with failure state set; flags, fill and positions read back as set; end of line, flush and unit buffering flush everything written so far. The number facet writes the same digits and padding straight to memory.",
  ["inputs", "histories", "configurations"], "histories of up to 19 outputs and format changes on sinks of 0 to 200 characters and unlimited ones; every integer type around every power of two and ten; widths 0 to 15, fills from space to underscore",
  "Tests print a few small positive numbers; negative hex and octal, limits of every type, padding on either side, width reset and full sinks are not sampled.",
  ["ostream.h", "iomanip.h", "internal/ostream.h", "internal/ostream/integer.h", "internal/ostream_basic_string.hpp", "internal/locale/num_put.h", "internal/charconv.hpp", "internal/ios_base.h", "internal/iomanip.h"],
  [("integers", "internal/ostream/integer.h"), ("output and state", "internal/ostream.h"), ("number facet", "internal/locale/num_put.h")],
  ["ostream.cpp"], 10000000,
  "random histories over five sinks, pointers, and the facet alone; non-trivial = three or more values shown and one of them an integer with a width or a base other than ten (facet: padded number of two or more digits; pointer: more than 16 bits)",
  "digits are produced by 128 bit division, padding and clipping by string operations, and compared with the sink after every operation together with state, width and flush position.",
  technique="stateful model-based property testing with a differential formatter",
  libsrc=["src/estd/ext/willemt/bipbuffer/bipbuffer.c"])

P("C25", "Pairs, tuples and parameter lists hold, pass on and visit exactly their elements",
  "A pair or tuple holds the values it was built from, at the position given, whether built, copied, moved, swapped, assigned or made from argument tuples: what was passed as an lvalue is left alone, what was passed as an rvalue is moved and never copied, and each element is built and destroyed once, empty elements included. "
  "get by index or type, apply and visit give the element itself; visit goes in order, stops at the first acceptance and returns that index, or -1. Pair comparisons are lexicographic. Compile-time value and type lists answer size, get, contains, filter, projection, first match and visiting in either direction as the same list would at run time.",
  ["inputs", "histories", "configurations"], "histories of up to 14 operations on three pairs and two tuples, of counted, move-only, string, integer and empty elements, repeated types, references; 72 compile-time lists of 0 to 7 entries with repeats, each visited up to every index",
  "Tests build one or two tuples of distinct values; move-only elements, repeats, empties in the middle, visiting past index one and repeated list entries are not sampled.",
  ["utility.h", "tuple.h", "internal/tuple.h", "internal/tuple/get.h", "internal/tuple/apply.h", "internal/tuple/make.h", "internal/tuple/sparse.h", "internal/variadic.h", "internal/variadic/visitor.h", "internal/variadic/selector.h", "internal/variadic/type_sequence.h", "internal/variadic/integer_sequence.h"],
  [("pair, swap, exchange", "utility.h"), ("element access", "internal/tuple/get.h"), ("visiting", "internal/variadic/visitor.h"), ("filtering", "internal/variadic/selector.h")],
  ["tuples.cpp"], 6000000,
  "random histories; non-trivial = three or more steps with a move, swap or visit among them (lists: at least two entries; sequences: longer than one)",
  "each element has a model value and moved-from mark, and is registered while alive; a list's content is also computed at run time and every query answered from that.",
  technique="stateful model-based property testing; compile-time lists compared with run-time ones")

P("C26", "Calling a function object runs its callable once with the caller's arguments",
  "A call through any function object (a reference to a model under every implementation, an owning function, an inline one, a method of an object, a one-shot, one with contexts, invoke) runs exactly the callable or method last given to it, once, on that object's state and no other's, passing references as the caller's own objects, copying a by-value argument once if given as an lvalue and never if as an rvalue, and returns its result. "
  "Copies, moves and assignments refer to the same callable or own an equal one, independent of whether the source still exists; callables given as lvalues are left alone; what a function owns is destroyed exactly once; emptiness is reported truly.",
  ["inputs", "histories", "configurations"], "histories of up to 20 assignments, copies, moves and calls on three function objects over seven models, copyable and move-only callables with state; three implementations plus the one-shot; values of every argument category",
  "Tests call a lambda once or twice; copies whose source is gone, self-assignment, callables reassigned, shared objects and argument passing are not sampled.",
  ["functional.h", "internal/functional.h", "internal/impl/functional.h", "internal/impl/functional/fnptr1.h", "internal/impl/functional/fnptr2.h", "internal/impl/functional/virtual.h", "internal/invoke.h"],
  [("references to models", "internal/functional.h"), ("owning functions", "functional.h"), ("implementations", "internal/impl/functional/fnptr2.h"), ("invoke", "internal/invoke.h")],
  ["functional.cpp"], 5000000,
  "random histories; non-trivial = at least two (owning: one) calls and two changes of what is referred to (single scenarios always)",
  "every callable keeps its own identity and call count and logs what it was given; a model says which callable each function object should reach and what its state should be.",
  technique="stateful model-based property testing with instrumented callables")

P("C27", "Durations, time points, dates and ratios follow exact rational arithmetic",
  "A duration is count times period, exactly: as long as the values fit the types involved, converting (by construction, assignment, duration_cast, to or from std::chrono) gives the exact length in the new ticks truncated towards zero, the common type expresses both operands exactly, sums, differences, multiples, abs and every comparison agree with the exact lengths, and time points behave as that length from the epoch. "
  "hh_mm_ss splits any length into hours (up to 255), minutes and seconds below 60 and the remainder, with its sign. Day counts from 1970 give the Gregorian date, before it too; leap years, last days of months and field ranges are the calendar's. Ratio sums, products and quotients are exact, reduced, with positive denominator.",
  ["inputs", "histories", "configurations"], "18 duration types (8 to 64 bit, signed and unsigned, periods from nanoseconds to years including 1/15, 5/7, 2/3, 1/1024) in 162 ordered pairs, counts over the whole range in which the result fits; 17 hh_mm_ss types; days over 65000 years; 400 ratio pairs",
  "Tests convert a handful of small counts; truncation of negatives, mixed unusual periods, ends of ranges, lengths over five hours and dates other than one are not sampled.",
  ["chrono.h", "ratio.h", "internal/numeric.h", "internal/promoted_type.h", "internal/chrono/duration.h", "internal/chrono/duration.hpp", "internal/chrono/operators.hpp", "internal/chrono/ratio.h", "internal/chrono/time_point.h", "internal/chrono/units.hpp", "internal/chrono/formatter.hpp", "internal/chrono/math.h", "internal/units/base.h", "port/std/chrono.h"],
  [("conversion", "internal/units/base.h"), ("common type", "internal/chrono/ratio.h"), ("operators", "internal/chrono/operators.hpp"), ("dates and clock faces", "internal/chrono/formatter.hpp"), ("ratio arithmetic", "ratio.h")],
  ["chrono.cpp"], 12000000,
  "random counts over a table of type pairs; non-trivial = the ticks differ in size and the count is not zero, or the operands differ (clock faces: over an hour; dates and fields: a valid month; ratios: both non-zero)",
  "counts are carried as 128 bit integers and exact fractions; the calendar is walked year by year and month by month; std::chrono serves where the two libraries meet.",
  technique="property-based testing with an exact-arithmetic oracle")

P("C28", "Amounts with units convert, compare, add and print by their exact scale",
  "A unit is its count times its scale plus any fixed offset it is stored with. As long as values fit the types involved, construction, assignment and put into another unit of its kind give the exact amount truncated towards zero, whatever the scales, reps and storage offsets; sums, differences and all comparisons between units of different scales, and with plain numbers, agree with exact arithmetic, in place ones included. "
  "A percentage of a range is exact towards the lower end, 0 and 100 percent being its ends. Written with any SI or byte prefix a unit shows its exact number, sign included, followed by the prefix and name or abbreviation asked for.",
  ["inputs", "histories", "configurations"], "ordered pairs among over 20 unit types (8 to 64 bit, signed and not, scales from milli to kilo, 1024, 2/3, 100/1024), counts over the whole range that fits; histories of up to 14 changes on one unit; 16 prefixes and names for four integer types and double",
  "Tests convert a few small positive counts between two scales; negative amounts, ends of ranges, non-decimal scales, offsets beyond one example and most prefixes are not sampled.",
  ["internal/units/base.h", "internal/units/operators.hpp", "internal/units/common_type.h", "internal/units/percent.h", "internal/units/ostream.h", "internal/units/si.h", "internal/units/bytes.h", "internal/units/fwd.h", "internal/units/ratio.h", "internal/promoted_type.h", "ratio.h"],
  [("conversion and storage", "internal/units/base.h"), ("operators", "internal/units/operators.hpp"), ("percentages", "internal/units/percent.h"), ("output", "internal/units/ostream.h"), ("prefixes", "internal/units/si.h")],
  ["units.cpp"], 9000000,
  "random counts over a table of type pairs and histories of changes; non-trivial = the count is not zero and the operands differ (histories: over two steps; shown: over two digits; percentages: above zero of a range over 100)",
  "counts are carried as 128 bit integers and exact fractions, output is compared with decimal text made from them.",
  technique="property-based testing with an exact-arithmetic oracle")

P("C29", "Memory pools hand out each block once, apart from all others, and take it back",
  "From any history of taking and returning blocks in any order: a pool hands out a block exactly as long as one is available, each lies wholly inside the pool, aligned for a pointer and apart from every other block held, keeps what was written in it until it is returned, and comes back available at once. "
  "The number available and fullness are always exact; handles are distinct, in range, and stand for the same block throughout. A typed pool builds one object per block, destroys it once when erased, refuses when full, and loses no block when a constructor throws.",
  ["histories", "configurations", "faults"], "histories of up to 60 (127 blocks: 500) steps on pools of 1, 3, 5, 7, 16 and 127 blocks of 1 to 61 bytes, and on typed pools of counted, larger and move-only objects with throwing constructors",
  "The test emplaces a few objects and erases one; running dry, returning in another order, reuse, contents kept and exceptions are not sampled.",
  ["internal/memory/v1/pool.h"],
  [("free list", "internal/memory/v1/pool.h")],
  ["pool.cpp"], 9000000,
  "random histories over six raw and three typed pools; non-trivial = a block was reused, and (more than one block) some block was returned out of order (typed: an object was built where another had been)",
  "a table of held blocks with address, handle and fill byte is the model; the blocks' bytes and guards around the pool are checked after every step; objects are registered while alive.",
  technique="stateful model-based property testing")

P("C30", "A shared object lives exactly as long as someone shares it",
  "From any history of constructing, sharing, copying, moving, assigning (itself and through what is being let go included), swapping, resetting and destroying shared pointers in any order, the masters' own references included: the object is destroyed, through its own deleter and that alone, exactly once, when its last reference goes and not before, whoever held that; "
  "use counts, identity, equality, ordering by owner and the object reached are exact after every step, a pointer which shares nothing counts 0 and gets null, and an inline object can be made anew once released. References linked in a ring count, move and release in the same way.",
  ["histories", "configurations"], "histories of up to 40 steps on three masters of six kinds (inline or outside objects; no deleter, functor, function pointer) and five pointers; chains of up to six objects which own one another; rings of up to seven",
  "Tests share one object among three pointers; copies after the master let go, self-assignment, assignment from inside the object released, reuse and last release elsewhere are not sampled.",
  ["memory.h", "internal/linked_ref.h", "internal/list/intrusive_forward.h", "internal/list/base.h", "internal/value_evaporator.h"],
  [("reference counting", "memory.h"), ("linked references", "internal/linked_ref.h"), ("ring", "internal/list/intrusive_forward.h")],
  ["shared.cpp"], 4000000,
  "random histories; non-trivial = three or more references taken in over five steps (chains: longer than one and walked; rings: a move and two copies)",
  "a table of who shares what predicts count, identity, destruction and deleter calls after each step; objects are registered while alive.",
  technique="stateful model-based property testing")

P("C31", "Objects held in place are aligned, inside their holder, apart and intact",
  "Wherever a vector, deque, stack, priority queue, unordered map, array, optional, expected, variant, tuple or inline shared object may validly stand in memory, every object it holds is aligned as its type demands, lies entirely inside the holder, overlaps no other, and keeps its value through any history of changes to the others; nothing is written outside the holder.",
  ["histories", "configurations"], "histories of up to 16 changes on eleven kinds of holder of seven element types (3 to 64 bytes, alignment 1 to 32), placed at the least aligned addresses their own type admits, surrounded by guard bytes",
  "Tests place holders on the stack, where they happen to be well aligned, and hold integers.",
  ["internal/array.h", "internal/value_evaporator.h", "array.h", "vector.h", "queue.h", "stack.h", "memory.h", "optional.h", "expected.h", "variant.h", "tuple.h", "unordered_map.h", "internal/optional/base.h", "internal/variant/storage.h", "internal/container/unordered/traits.h"],
  [("inline arrays", "internal/array.h"), ("inline objects", "internal/value_evaporator.h"), ("alternatives", "internal/variant/storage.h"), ("map entries", "internal/container/unordered/traits.h")],
  ["storage.cpp"], 9000000,
  "random histories at random valid addresses; non-trivial = at least two objects were put in place",
  "each element's address is checked for alignment, containment and overlap, its bytes against its stamp, and the surroundings against their fill, after every change.",
  technique="stateful property testing with placement and guard-byte oracles")

P("C32", "A lock object holds its mutex exactly from acquiring it until it lets go",
  "After any history of locking, trying (with or without a time), deferring, adopting, unlocking, releasing, moving and destroying lock objects over several mutexes, a mutex is held exactly when some lock object (or the caller, after release) owns it: what is owned is unlocked once when the object goes, by exception too, what is not owned is never unlocked, attempts report truly and pass on the time asked for. Threads which enter only under such locks are never inside together and always get in.",
  ["histories", "schedules", "faults"], "histories of up to 30 steps on four locks over three mutexes whose attempts may fail; nested scopes left normally or by exception; two to four threads of up to 40 rounds",
  "Tests take one guard on one mutex; failed attempts, release, adoption, moves, nesting and exceptions are not sampled.",
  ["mutex.h", "port/mutex.h", "port/std/mutex.h", "internal/value_evaporator.h"],
  [("scoped locks", "mutex.h")],
  ["locks.cpp"], 6000000,
  "random histories, nested scopes and thread scripts; non-trivial = three or more locking operations with an owning object destroyed among them (scopes: two or more with an exception; threads: always)",
  "a mutex which refuses what would hang or be invalid and a table of owners predict state after each step; threads count in an unprotected variable.",
  technique="stateful model-based property testing; randomised thread schedules")

P("C33", "What the library says about a type, or makes of it, is what the language says",
  "For every type put together from the fundamental, class, union, enumeration, function and member-pointer types by qualifying, pointing, referring, arraying and returning: each type query (const, reference, pointer, array, function, member, class, union, enum, signed, unsigned, empty, trivial, copyable ...), each transformation (removing or adding qualifiers, references, pointers, extents; decay; signedness), and for pairs sameness, inheritance, convertibility, assignability, constructibility and common type, and the result of a call, agree with the standard library; "
  "numeric limits agree with it and with the values: every value lies between min and max and its text in base 8, 10 or 16 fits the length given; promoted types keep width and sign; gcd, lcm and accumulate are exact.",
  ["inputs"], "944 generated types, 5476 pairs, 960 callable and argument combinations, all integer and floating-point types and values",
  "Tests ask a few queries about int, a class and a pointer; qualified, noexcept and C-variadic functions, unions, arrays, member pointers and their compositions are not sampled, and types are not values a test can loop over.",
  ["type_traits.h", "internal/raw/type_traits.h", "internal/llvm_type_traits.h", "internal/type_traits/is_function.h", "internal/type_traits/is_base_of.h", "internal/type_traits/is_convertible.h", "internal/type_traits/is_member.h", "internal/type_traits/make_unsigned.h", "internal/common_type.h", "internal/invoke_result.h", "internal/promoted_type.h", "internal/llvm/is_void.h", "internal/limits/integer.h", "internal/limits/traits.h", "internal/limits.h", "limits.h", "internal/numeric.h", "numeric.h"],
  [("queries", "internal/raw/type_traits.h"), ("functions", "internal/type_traits/is_function.h"), ("common type", "internal/common_type.h"), ("limits", "internal/limits/integer.h")],
  ["types.cpp", "types2.cpp", "limits.cpp"], 3000000,
  "types grown by a hash-driven generator at compile time from 74 bases by up to four of 19 steps, all pairs of 74 types, all calls of 30 callables with 32 argument lists, random values; non-trivial = a built-up type, an unequal pair, a valid call, a value other than 0 and -1",
  "every query is answered by estd and by std at compile time for every generated type, and the table of both is searched for a difference; limits are checked against generated values and against their texts.",
  technique="differential property-based testing over generated types, against the standard library")

P("C34", "Iterators read, write and pass on each element exactly once, in order",
  "However several iterators over one stream buffer are made, copied, assigned, advanced either way and compared, and whatever is read from or added to the buffer meanwhile: each step takes exactly one character, a character taken by post-increment is the one that stood there, all characters (0 and 0xff too) arrive in order, and an iterator is at its end exactly when it met the end of its source, being merely out of data is not the end. "
  "Output iterators deliver each element assigned once and in order until there is no more room, and report failure exactly then; mapping iterators apply their function once an element; distance counts the steps.",
  ["histories", "inputs"], "histories of up to 40 steps on three iterators over buffers of three kinds; contents of all byte values; output into buffers of 11 and 20 characters",
  "Tests read eleven letters and write five; end detection, copies, sources which run dry or grow, full buffers and bytes outside ASCII are not sampled.",
  ["iterator.h", "internal/istreambuf_iterator.h", "internal/ostream_iterator.h", "internal/iterator_standalone.h", "internal/iterator/back_insert.h"],
  [("reading", "internal/istreambuf_iterator.h"), ("writing", "iterator.h"), ("distance", "internal/iterator_standalone.h")],
  ["iterators.cpp"], 6000000,
  "random histories; non-trivial = three characters taken by at least two iterators (writing: three elements written; ranges: more than two elements)",
  "a string, a position in it and an end flag for each iterator predict every character, every comparison between iterators and the buffer's own state after each step.",
  technique="stateful model-based property testing")

P("C35", "FreeRTOS wrappers do to the kernel what was asked, once, and wait that long",
  "Whatever is done, in whatever order, with the semaphores, mutexes, recursive mutexes, queues, event groups, timers, task and handle wrappers of the FreeRTOS port, in dynamic or in the object's own storage, and whatever interrupts and other tasks do meanwhile: each object makes one kernel object of the right kind, size, limit and storage, each operation reaches that object with the item, bits, period, flags and number of ticks meant, its answer comes back unchanged, and the kernel object is deleted exactly once, with its owner, which cannot be copied. "
  "Times in any unit become ticks of the configured rate, a wait for ever waits for ever, a try does not wait, and a time already over does not wait either; waiting until a time point ends at that tick, also across a wrap of the tick counter. Scoped locks hold these mutexes for exactly their scope.",
  ["histories", "schedules", "inputs"], "histories of up to 30 steps for 19 kinds of objects, tick counts of 32 and 16 bits at 1000 and 100 ticks a second, starting anywhere in the counter's range, with an interrupt due before, at or after the deadline of each wait; times in ticks, microseconds, milliseconds and seconds of several widths",
  "The tests of this port need a device and are not among those which run; they send one item and take one lock. Time units, deadlines, interrupts, tick wrap, storage and deletion are not sampled.",
  ["port/freertos/semaphore.h", "port/freertos/mutex.h", "port/freertos/queue.h", "port/freertos/event_groups.h", "port/freertos/timer.h", "port/freertos/chrono.h", "port/freertos/thread.h", "port/freertos/wrapper/semphr.h", "port/freertos/wrapper/queue.h", "port/freertos/wrapper/event_groups.h", "port/freertos/wrapper/timer.h", "port/freertos/wrapper/task.h"],
  [("semaphores and mutexes", "port/freertos/semaphore.h"), ("queues", "port/freertos/queue.h"), ("ticks", "port/freertos/chrono.h"), ("handles", "port/freertos/wrapper/semphr.h")],
  ["freertos.cpp", "freertos16.cpp"], 6000000,
  "random histories on a simulated kernel and clock; non-trivial = at least two waits which had to wait, of either outcome (queues: and two items passed through; mutexes: and three operations; recursive: held twice over and refused to another; timers: fired, and cut short; handles: four operations)",
  "a stand-in for the kernel's C interface on a simulated clock checks every handle and argument it is given; a counter, an owner, a queue or a set of bits and a 64-bit clock predict each result and the time each call takes.",
  inc=["freertos"],
  technique="stateful model-based property testing on a simulated kernel with generated interrupt schedules")

P("C36", "Containers in movable memory touch it only while locked, and let go",
  "For memory known by handles, whose address may change whenever nobody holds a lock on it, vectors, strings, stream buffers over such strings and linked lists hold after every operation exactly what the standard ones would: growth, ranges, searches, comparisons, copies out, proxies for single elements, and joint use with strings of other kinds included. "
  "Every operation, on every path out of it (found or not, empty, refused), touches the memory only while it is locked, releases each lock it took exactly once and none it did not take, and does not reallocate or free what is locked.",
  ["histories", "inputs"], "histories of up to 20 operations on vectors of three element types, strings, stream buffers and two kinds of lists, in memory which moves on every lock and unlock",
  "Tests use handle-based memory for a handful of appends whose addresses never change, so a lock left behind, released twice or not taken goes unnoticed.",
  ["internal/dynamic_array.h", "internal/runtime_array.h", "internal/container/locking_accessor.h", "internal/container/iterator.h", "internal/string.h", "forward_list.h", "internal/list_node.h", "internal/list/base.h", "traits/list_node.h", "iterators/list.h", "allocators/handle_desc.h"],
  [("array edits", "internal/dynamic_array.h"), ("copying and comparing arrays", "internal/runtime_array.h"), ("searching strings", "internal/string.h"), ("list nodes", "traits/list_node.h"), ("list iterators", "iterators/list.h")],
  ["moving.cpp"], 8000000,
  "random histories; non-trivial = at least four edits (forward lists: five; lists: five elements and an insertion; stream buffers: four writes and three characters read)",
  "an arena gives each block a new address whenever its lock count leaves or reaches zero, frees the old one and counts locks, so that stale addresses are caught by the address sanitizer and unbalanced locks after each operation; std::vector and std::string are the models.",
  technique="stateful model-based property testing over memory which moves whenever it is unlocked")

P("C37", "Streams over devices pass on every byte; platform clocks tell every tick",
  "A stream buffer or stream over a device (an Arduino Print or Stream, a C FILE, a Pico stdio driver) gives the device exactly the bytes written to it, in order, and the reader exactly the bytes the device has, in order and whatever their values (255 is not the end); it reports how many were taken or read when the device takes or has fewer, the end only when the device has nothing, looks at a byte without consuming it, and a stream fails once its device takes no more. "
  "Printing strings and views to an Arduino Print writes exactly their characters, and appending Arduino strings and strings in flash to an estd string appends exactly theirs. "
  "A platform's clock reads exactly its tick counter at its period, sleeping asks the platform for exactly the requested time in the platform's unit, and a port's mutex locks, unlocks and destroys exactly the platform mutex it created.",
  ["inputs", "histories"], "writes and reads of every byte value over devices which take and give as little as a few bytes at a time, every tick count of the counters, delays in every unit",
  "No test in the repository runs the Arduino, Pico, ESP or VDK ports, and the FILE stream buffer is only written to.",
  ["port/arduino/streambuf.h", "port/arduino/ostream.h", "port/arduino/istream.h", "port/arduino/Print.h", "port/arduino/string.h", "port/arduino/chrono.h", "port/arduino/thread.h", "port/posix/streambuf.h", "port/posix/streambuf.cpp", "port/rpi/pico/streambuf.h", "port/rpi/pico/chrono.h", "port/esp-idf/chrono.h", "port/vdk/mutex.h"],
  [("Arduino stream buffer", "port/arduino/streambuf.h"), ("FILE stream buffer", "port/posix/streambuf.cpp"), ("Pico stream buffer", "port/rpi/pico/streambuf.h"), ("clocks", "port/arduino/chrono.h"), ("text appended", "port/arduino/string.h")],
  ["devices.cpp"], 10000000,
  "random histories; non-trivial = something reached or came from the device (clocks: time passed; delays: not zero; appending: to a string which isn't empty)",
  "stand-ins for the platforms' interfaces (harness/devices) record everything they are given, and give and take a limited number of bytes at a time; the models are the bytes themselves, std::ostringstream, std::istringstream and integer arithmetic.",
  inc=["devices"], libsrc=["src/estd/port/posix/streambuf.cpp"], defs=["-DARDUINO=10800", "-DLIB_PICO_STDIO=1"],
  technique="model-based property testing over stand-in devices")

P("C38", "Nothing changes when there is no standard library: estd's own parts serve alike",
  "On a target without a C++ standard library (as with avr-gcc and Arduino) the library falls back on its own type queries, limits, character traits, character classes, memory and string routines, iterators, algorithms, ratios and utilities. "
  "With those in place its containers, strings, streams, conversions, optional, variant, expected, tuples, functions, durations and units still behave for every input and history as described for each above; character 255 is a character like any other and never taken for the end; type queries agree with the language.",
  ["inputs", "histories"], "the inputs and histories of 35 other harnesses, with every standard header hidden from the library",
  "The repository's tests only run where a standard library is found, so the fallbacks (about a fifth of the headers) are not even compiled by them.",
  ["internal/type_traits/constructible.h", "internal/type_traits/is_assignable.h", "internal/raw/type_traits.h", "traits/char_traits.h", "internal/string_convert.cpp", "internal/locale/cbase.h", "internal/iterator_standalone.h", "internal/limits.h", "internal/utility/declval.h", "cctype.h"],
  [("own type queries", "internal/type_traits/constructible.h"), ("own iterators", "internal/iterator_standalone.h"), ("conversions by the C library", "internal/string_convert.cpp")],
  NOSTD_SOURCES, 6000000,
  "random inputs and histories as for each harness; non-trivial = what counts so for the harness",
  "the harnesses of the other properties are compiled with a forced header which includes the whole library first, with every C++ standard header out of its reach, its feature macros as avr-gcc and Arduino give them and namespace std renamed for what it defines there; the oracles then include the standard library as ever. What fails to compile or differs is the library's fallback.",
  libsrc=["src/estd/ext/willemt/bipbuffer/bipbuffer.c"], nostd=True, group=True, thorough_factor=10,
  technique="differential and model-based property testing over an emulated target without a standard library")


P("C39", "What is given away is moved, never copied; what is kept is left as it was",
  "An element handed over as an rvalue (pushed, inserted, emplaced, assigned, put or passed on) reaches its container, list, queue, optional, expected, variant, tuple, pair or callable by moves alone; one handed over as an lvalue is copied and is left unchanged. "
  "Making and closing room inside (insertion, erasure, growth, heap order), rearranging a range (swap, reverse, exchange, move_backward) and moving a whole optional, expected, variant, pair or tuple copies no element, and every element keeps its value throughout: none is moved from twice and none which is moved from is read.",
  ["histories", "inputs"], "histories of operations on every container and wrapper, over elements which count copies and moves and know when they have been moved from",
  "Tests store numbers, for which copying, moving and using what was moved from cannot be told apart.",
  ["internal/dynamic_array.h", "queue.h", "stack.h", "forward_list.h", "list.h", "internal/heap.h", "optional.h", "expected.h", "variant.h", "internal/container/unordered_map.h", "functional.h", "internal/tuple/get.h", "internal/utility.h"],
  [("vector edits", "internal/dynamic_array.h"), ("queues", "queue.h"), ("heaps", "internal/heap.h"), ("optional", "optional.h"), ("maps", "internal/container/unordered_map.h")],
  ["moves.cpp"], 6000000,
  "random histories; non-trivial = an element was handed over, or something holding one was moved or rearranged",
  "the element type counts its copies and moves and remembers having been moved from; the oracle is the standard container of the same history, and no copies where none is due.",
  technique="stateful model-based property testing with instrumented elements")
