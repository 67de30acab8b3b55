#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "meaning": "state the property is about", "where": files[0]}]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Array element operations behave as a bounded sequence",
 "For every array in a valid state (length at most capacity, storage holding capacity elements), every element size and every index, the element operations (insert, append, fill, get, set, pop, peek, reverse, concatenate, copy, wipe, search, count, delete by index, range or value) return and leave exactly what the same operation on an abstract sequence would, report out-of-range or full requests as failure without changing anything, and touch no byte outside the array's storage. Deleting keeps every remaining element's bytes and order and zeroes the vacated slots. Queries change nothing.",
 ["inputs", "histories"], "all element sizes, lengths, capacities, indices, ranges and element bytes",
 "The tests run a dozen fixed calls on int arrays; element size, index and length are universally quantified, and off-by-one or stride slips only show at particular combinations.",
 ["array/array.c", "harbol_common_includes.h"],
 [("element access", "array/array.c: insert/append/get/set/pop/peek"), ("shifting deletion", "harbol_common_includes.h: array_shift_up; array/array.c: del_by_*"), ("reversal, fill, search", "array/array.c: swap/fill/index_of/item_count")],
 "struct HarbolArray {table, cap, len}", "return values and table bytes")

prop("C02", "Array capacity changes preserve contents and bounds",
 "Growing, resizing, shrinking, creating or clearing an array leaves it in a valid state (length at most capacity, storage really holding that many elements, new slots zeroed), keeps every element that still fits byte for byte, and reports truthfully whether the capacity changed. If memory cannot be obtained, or the requested byte count does not fit in the address range, the array is unchanged.",
 ["inputs", "fault_sequences"], "all capacities, lengths, element sizes, requested sizes, and every allocation outcome",
 "The tests never make allocation fail, never shrink below the length and never use sizes near the arithmetic limits.",
 ["array/array.c", "harbol_common_includes.h"],
 [("resizer", "array/array.c: harbol_array_resizer, grow, resize, shrink, init"), ("zeroing realloc", "harbol_common_includes.h: harbol_recalloc")],
 "struct HarbolArray {table, cap, len}", "array fields and storage")

prop("C03", "Byte buffer is the exact concatenation of what was inserted",
 "After any successful insertion (scalar, C string with its terminator, object bytes, zero run, or another buffer) a byte buffer holds its previous bytes followed by exactly the inserted bytes, with length increased accordingly and never above capacity; copying replaces the contents by the source's; deleting a range removes exactly those bytes and keeps the order of the rest. A failed operation leaves the contents as they were, and no operation reads or writes outside the storage.",
 ["inputs", "histories", "fault_sequences"], "all buffer states, inserted values, sizes and ranges, and allocation outcomes",
 "The tests insert a few constants from an empty buffer; buffer fill level relative to capacity and deletion ranges are unbounded.",
 ["bytebuffer/bytebuffer.c", "harbol_common_includes.h"],
 [("insertion", "bytebuffer/bytebuffer.c: insert_*"), ("append/copy", "bytebuffer/bytebuffer.c: append, copy"), ("deletion", "bytebuffer/bytebuffer.c: del")],
 "struct HarbolByteBuf {table, len, cap}", "buffer bytes and length")

prop("C04", "Building a string keeps text, length and terminator consistent",
 "Every operation that builds a string (creating, copying from or appending a character, a run of characters, a C string or another string, clearing) leaves a string whose storage holds exactly its length in characters followed by a terminator, whose text is the old text followed by the added text (or the copied text), and it never writes outside that storage. An absent or empty C string to copy or append is refused without change, and if memory cannot be obtained the string is unchanged and failure is reported.",
 ["inputs", "histories", "fault_sequences"], "all string states and texts of any length, and allocation outcomes",
 "The tests build a few short literals; the terminator and storage size only go wrong for particular combinations of old and new lengths or of failed allocations.",
 ["str/str.c", "harbol_common_includes.h"],
 [("resize", "harbol_common_includes.h: harbol_resize_string; str/str.c: _harbol_resize_string"), ("append/copy", "str/str.c: add_*, copy_*")],
 "struct HarbolString {cstr, len}", "cstr bytes and len")

prop("C05", "String editing and queries compute the documented text function",
 "For every valid string, the editing operations (replacing a character, replacing occurrences of a substring, upper and lower case, reversing, removing a character, trimming white space) and the queries (comparison, emptiness, palindrome test, counting, finding) give exactly the result of the corresponding function on the text, leave length and terminator consistent with the text, and access only the string's own storage and the arguments.",
 ["inputs"], "all string texts and lengths, all characters, patterns and replacement texts",
 "The tests apply each edit to one or two short literals.",
 ["str/str.c"],
 [("in-place edits", "str/str.c: replace_char, upper, lower, reverse, rm_char, trim_spaces"), ("substring replacement", "str/str.c: replace_cstr"), ("queries", "str/str.c: count_char, count_cstr, find_char, is_palindrome, cmp*")],
 "struct HarbolString {cstr, len}", "cstr bytes, len, return values")

prop("C06", "Map lookup finds exactly the keys that were inserted",
 "In a map whose capacity is a power of two, whatever the hash seed and however keys collide, a lookup of a key (of at least one byte) returns the entry whose key bytes equal it if one is present and reports absence otherwise, always terminates, and inserting a key that is present is refused while inserting an absent one makes it findable with exactly the given value bytes and leaves every other entry findable with its value. Setting a key's value replaces its value only.",
 ["inputs", "histories"], "all map states reachable under any seed, all keys, values and collision patterns, including growth",
 "The tests use a handful of keys and a random seed; which keys collide, and which bucket they land in, depends on the seed.",
 ["map/map.c", "harbol_common_includes.h"],
 [("probing", "map/map.c: get_entry_index, _harbol_map_insert_entry"), ("growth", "map/map.c: rehash"), ("insert/set", "map/map.c: insert, key_set, idx_set")],
 "struct HarbolMap", "return values of lookups")

prop("C07", "Removing from a map affects only the removed key and keeps order",
 "Removing an entry by key or by position makes that key absent, releases its memory, shrinks the count by one, and leaves every other key findable with its value bytes and the insertion order of the remaining entries unchanged; removing an absent key or position changes nothing and reports failure.",
 ["inputs", "histories"], "all map states, keys and positions, whatever the collision pattern",
 "The tests remove once or twice and never look at all remaining keys under collisions.",
 ["map/map.c", "harbol_common_includes.h"],
 [("removal", "map/map.c: key_rm, idx_rm"), ("parallel shift", "harbol_common_includes.h: multi_array_shift_up")],
 "struct HarbolMap", "entries and bucket table")

prop("C08", "Deque operations behave as a double-ended queue",
 "Every deque reachable from creation with a positive capacity links its elements in one consistent chain: prepending and appending add the value at that end (growing when full), popping removes the value at that end and copies exactly its bytes out, forward and backward traversal visit the same elements in opposite order, and the element count equals the chain length. Freed positions are reused without ever sharing a position between two live elements.",
 ["inputs", "histories"], "all sequences of operations on any deque, any capacity and value",
 "Tests run one short scripted history; chain corruption needs a particular order of pops and pushes at both ends.",
 ["deque/deque.c"],
 [("link tables and free chain", "deque/deque.c: _harbol_deque_alloc_node, _harbol_deque_free_node, _harbol_deque_resize"), ("ends", "deque/deque.c: prepend, append, pop_front, pop_back")],
 "struct HarbolDeque", "head/tail/next/prev and element data")

prop("C09", "Region allocator hands out disjoint, zeroed, in-bounds blocks",
 "Every block a region returns lies wholly inside the region's storage, is zeroed, starts at a multiple of the pointer size from the previous block, and does not overlap any block returned before; a request that does not fit returns nothing and changes nothing, for every size up to the largest representable. The reported remaining space is what is left.",
 ["inputs", "histories"], "all region states and request sizes, including ones near the arithmetic limits",
 "Tests request a few small sizes; the overflow and exact-fit cases lie elsewhere.",
 ["allocators/region/region.c", "harbol_common_includes.h"],
 [("bump allocation", "allocators/region/region.c: harbol_region_alloc"), ("alignment", "harbol_common_includes.h: harbol_align_size")],
 "struct HarbolRegion {mem, offs, size}", "returned pointers")

prop("C10", "Two-ended stack allocator never lets its ends overlap",
 "Blocks allocated from the front and from the back of a bi-stack always lie inside its storage, never overlap one another or any other live block, and the two ends never cross, for every request size; a request that does not fit returns nothing and changes nothing. Resetting one end releases exactly that end's blocks, and the reported margin is the unallocated space between the ends.",
 ["inputs", "histories"], "all bi-stack states and request sizes, including ones near the arithmetic limits",
 "Tests allocate a few small blocks; wrap-around needs sizes larger than the free space at the back.",
 ["allocators/bistack/bistack.c", "harbol_common_includes.h"],
 [("ends", "allocators/bistack/bistack.c: alloc_front, alloc_back, reset_*"), ("alignment", "harbol_common_includes.h: harbol_align_size")],
 "struct HarbolBiStack {mem, front, back, size}", "returned pointers")

prop("C11", "Object pool never hands out a block twice and conserves blocks",
 "From any pool state, allocating returns a zeroed block that lies inside the pool at a block boundary, was free, and is distinct from every block in use; freeing a block in use makes it available again, and freeing nothing or an address outside the pool changes nothing. The number of free blocks always equals the number of blocks not in use, and an exhausted pool returns nothing.",
 ["inputs", "histories"], "all pool sizes, object sizes and alloc/free histories",
 "Tests allocate and free a few objects in one order; the free chain is corrupted only by particular orders.",
 ["allocators/objpool/objpool.c"],
 [("free chain", "allocators/objpool/objpool.c: init, alloc, free")],
 "struct HarbolObjPool {mem, next, size, objsize, free_blocks}", "returned pointers")

prop("C12", "Tuple layout places fields in order, disjoint and aligned",
 "A tuple of fields of positive sizes whose total fits the layout encoding stores each field wholly inside the tuple's storage, in order, without overlap, contiguous when packed, and otherwise with the padding the C layout rules give for fields of scalar sizes; reading a field's size returns the size given, setting a field changes exactly that field's bytes, and an index past the last field is refused.",
 ["inputs"], "all field counts, all positive field sizes within the encoding, packed and unpacked",
 "Tests build two or three fixed layouts.",
 ["tuple/tuple.c", "harbol_common_includes.h"],
 [("layout computation", "tuple/tuple.c: harbol_tuple_init"), ("access", "tuple/tuple.c: get, set, field_size")],
 "struct HarbolTuple {fields, datum, len}", "field pointers and sizes")

prop("C13", "Tree nodes own their value and keep their children in order",
 "Creating a node or setting its value stores an exact private copy of the given bytes and its size; inserting a child appends it after the existing children; looking up by index or by value returns exactly the child with that position or value; removing a child frees it and keeps the others in order; operations that fail leave the tree as it was.",
 ["inputs", "histories", "fault_sequences"], "all nodes, values, child counts and indices, and allocation outcomes",
 "Tests build one small tree with equal-sized values.",
 ["tree/tree.c", "array/array.c"],
 [("value storage", "tree/tree.c: init, set"), ("children", "tree/tree.c: insert_*, rm_*, get_node_by_*")],
 "struct HarbolTree {kids, len, data}", "node data and kids")

prop("C14", "Variant always holds a faithful private copy of its value",
 "Creating or setting a variant makes it hold a private copy of exactly the given bytes with that size (creating also records the type tag), releasing any previous value exactly once; if memory cannot be obtained the variant keeps its previous value and failure is reported; clearing releases the value and leaves it empty.",
 ["inputs", "fault_sequences"], "all values, sizes, tags, prior states and allocation outcomes",
 "Tests store one or two values and never fail an allocation.",
 ["variant/variant.c", "harbol_common_includes.h"],
 [("copying", "variant/variant.c: init, set, clear; harbol_common_includes.h: dup_data")],
 "struct HarbolVariant {data, size, align_or_len, tag}", "variant fields and data bytes")

prop("C15", "UTF-8 encoding and decoding agree for every code point",
 "Encoding any Unicode code point produces the standard UTF-8 byte sequence of the right length within the given space (and nothing when it does not fit), and decoding that sequence gives the code point back with the matching length; the length predicates agree with both.",
 ["inputs"], "all code points up to U+10FFFF and all buffer sizes",
 "Tests decode a few literals; the sequence-length boundaries and bit shuffles must hold for all 1.1 million code points.",
 ["lex/lex.c"],
 [("encoder/decoder", "lex/lex.c: write_utf8_cstr, read_utf8, rune_len, get_utf8_len")],
 None, "bytes written, rune and length returned")

prop("C16", "Lexing helpers stay within the terminated input",
 "For every zero-terminated input text, the lexing helpers (white space, comments, identifiers, string and number literals, escapes) read nothing past the terminator, terminate, and report an end position between the start and the terminator.",
 ["inputs"], "all zero-terminated inputs of any length and content",
 "Tests feed well-formed literals; truncated and malformed endings are what overruns need.",
 ["lex/lex.c"],
 [("scanners", "lex/lex.c: skip_*, is_*, lex_*")],
 None, "end pointers and reads")

prop("C17", "Integer helpers compute the documented exact arithmetic",
 "For every machine word, the integer helpers give the exact mathematical answer: alignment rounds up to the next multiple (unless that overflows) and padding is the difference, the ceiling and next-power-of-two helpers give the enclosing all-ones value and its successor, integer logarithms and digit counts in base 2 and 10 are exact, and the range tests agree with comparison.",
 ["inputs"], "all 64-bit words (and all power-of-two alignments)",
 "2^64 inputs; table and boundary slips affect isolated ranges such as one power of ten.",
 ["harbol_common_includes.h"],
 [("integer helpers", "harbol_common_includes.h: harbol_align_size, harbol_pad_size, bitwise_ceil, next_pow_of_2, int_log2, base_2_digits, int_log10, base_10_*, is_*_in_bounds, bytes_bitmask")],
 None, "return values")

prop("C18", "Intrusive list links stay consistent",
 "Adding a node after another, at the head or at the tail, or removing a node, of an intrusive singly or doubly linked list changes exactly the links that operation must change: forward and backward links of neighbours remain mutually inverse, head and tail denote the first and last nodes, and no other node is modified.",
 ["inputs", "histories"], "all list shapes (empty, one node, neighbours present or absent) and all node positions",
 "The repository has no test for the link helpers.",
 ["harbol_common_includes.h"],
 [("links", "harbol_common_includes.h: harbol_link_*, harbol_bilink_*")],
 "struct HarbolLink, struct HarbolBiLink", "link fields")

prop("C19", "Shared buffer helpers keep parallel buffers in step",
 "The helpers that allocate, grow or shift several buffers together treat all of them alike: allocation gives every buffer the requested zeroed storage or none of them any; growth keeps the old contents of every buffer and zeroes the rest; shifting removes the same element range from every buffer, zeroes the vacated tail and sets the shared length, for every index and amount, without accessing memory outside the buffers; and a duplicate of data is an exact independent copy.",
 ["inputs", "fault_sequences"], "all lengths, indices, amounts, element sizes and allocation outcomes",
 "No direct tests; callers exercise a couple of sizes and amount 1.",
 ["harbol_common_includes.h"],
 [("helpers", "harbol_common_includes.h: harbol_recalloc, harbol_multi_calloc, harbol_multi_recalloc, array_shift_up, multi_array_shift_up, dup_data, dup_cstr")],
 None, "buffer bytes, lengths, return values")

prop("C20", "Failed allocation is reported and leaves containers usable",
 "Whenever memory cannot be obtained during an operation on a container, the operation reports failure, leaks nothing it allocated, and leaves the container in a valid state with its previous contents, so that it can still be read and released.",
 ["fault_sequences", "inputs"], "every allocation made by the operation may fail, for every container state and argument",
 "No test makes an allocation fail.",
 ["array/array.c", "bytebuffer/bytebuffer.c", "map/map.c", "deque/deque.c", "tree/tree.c", "variant/variant.c", "tuple/tuple.c", "str/str.c"],
 [("constructors", "*_new, *_init, *_make"), ("growth", "*_resize, *_grow, rehash")],
 None, "return values and container fields")

prop("C21", "Arithmetic expression parser follows the grammar and stays in bounds",
 "Evaluating any zero-terminated expression terminates without reading outside the text or writing outside the token buffer, operators bind with the documented precedence and associativity, and unknown or malformed input is reported as failure rather than misread.",
 ["inputs"], "all expression texts of any length, all token lengths",
 "Tests evaluate a few short well-formed expressions.",
 ["math/math_parser.c"],
 [("tokenizer and recursive descent", "math/math_parser.c")],
 "struct HarbolMathLexState", "value and success flag")

prop("C22", "Span merging and source line tables are exact",
 "Merging two source spans gives the smallest span whose start and end lines and columns cover both by the documented component rule, and splitting a source text into a line table gives one entry per line, each the exact text of that line, so that the lines reproduce the source.",
 ["inputs"], "all spans and all source texts",
 "Tests use one text and one merge.",
 ["msg_span/msg_span.c"],
 [("span merge", "msg_span/msg_span.c"), ("line table", "msg_span/msg_span.c: harbol_msg_span_init")],
 None, "span fields and line strings")

prop("C23", "Random generator stays in its state table and in its output range",
 "Generating from any generator state, seeded or not, reads and writes only the generator's own state, terminates, leaves the position within the table, and the floating point draw lies between 0 and 1 inclusive; equal seeds give equal sequences.",
 ["inputs", "histories"], "all seeds, all generator states",
 "No test draws past one table refill or from unseeded states.",
 ["mtwister/mtwister.h"],
 [("refill and tempering", "mtwister/mtwister.h: MT_GenRand_UInt, MT_GenRand_F64")],
 "struct MTRand {mt, index}", "returned values and state")

prop("C24", "Memory pool never hands out overlapping live blocks",
 "Blocks returned by a memory pool lie inside the pool's storage, never overlap another live block, keep their contents until freed or resized (resizing preserves the common prefix), and freeing everything makes all the space available again.",
 ["inputs", "histories"], "all allocation, reallocation and free histories",
 "The pool's own test is not part of the passing suite.",
 ["allocators/mempool/mempool.c"],
 [("free lists", "allocators/mempool/mempool.c")],
 "struct HarbolMemPool", "returned pointers")

prop("C25", "Configuration trees survive a write and re-read",
 "Any configuration built from supported values can be written out and parsed back to an equal configuration, and any text is either parsed or rejected without corrupting memory.",
 ["inputs"], "all configuration texts and trees",
 "Tests parse two fixed files.",
 ["cfg/cfg.c"], [("parser/printer", "cfg/cfg.c")], None, "parsed map")

prop("C26", "Plugin manager loads, tracks and unloads each plugin exactly once",
 "Every plugin found in the directory is loaded once, initialised once, tracked under its name, and unloaded exactly once when the manager is cleared, whatever fails in between.",
 ["fault_sequences", "histories"], "all directory contents and loader failures",
 "Tests load one plugin.",
 ["plugins/plugins.c"], [("loader", "plugins/plugins.c")], None, "loaded handles")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
