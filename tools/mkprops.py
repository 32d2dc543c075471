#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run once by hand when a property changes)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                          "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("P01", "JSON parsing stores exactly the value that was written",
 "For every valid JSON text within the documented limits, parsing it (into an owned document, into a caller's buffer, or from an already parsed JSON value) yields a document whose type, nesting, array order, keys, strings, booleans and nulls are exactly those of the text; a repeated key keeps its last value. Numbers are stored exactly up to 38 significant digits, rounded half-up beyond that, and magnitudes too small to represent become zero.",
 ["inputs"], "all JSON texts of nesting depth <= 100, with any strings, key sets, element counts and number spellings",
 "The tests parse about forty fixed texts; nesting shapes, key sets whose storage order differs from text order, repeated keys, escapes and number spellings are an unbounded space.",
 ["src/json.rs", "src/builder/array.rs", "src/builder/object.rs", "src/builder/scalar.rs", "src/vec.rs"],
 [("write_array / write_object recursion", "src/json.rs"), ("number2decimal", "src/json.rs"), ("parse / parse_to / TryFrom", "src/json.rs")],
 ["YasonBuf::parse", "Yason::parse_to", "YasonBuf::try_from(&serde_json::Value)", "every reading accessor"])

prop("P02", "Unacceptable JSON is refused with an error, never a document or a crash",
 "Text that is not valid JSON, that nests deeper than 100 containers, or that holds a number whose magnitude is too large to represent (in any value that is kept, a repeated key keeping its last one) is refused with the corresponding error (JSON error, nested too deeply, numeric overflow) from every parsing entry point. No such text ever produces a document, and no parse ever panics.",
 ["inputs"], "all byte strings that are valid UTF-8 offered as JSON: malformed, too deep, or out of numeric range, with the offending part at any position",
 "Tests try six malformed numbers and two overflowing ones at top level; they never place the offence inside a nested container or at the exact limits.",
 ["src/json.rs", "src/builder/mod.rs", "src/builder/array.rs", "src/builder/object.rs"],
 [("number2decimal overflow mapping", "src/json.rs"), ("MAX_NESTED_DEPTH check", "src/builder/array.rs, src/builder/object.rs")],
 ["YasonBuf::parse", "Yason::parse_to", "YasonBuf::try_from(&serde_json::Value)"])

prop("P03", "Formatted output is valid JSON denoting exactly the stored value",
 "Compact and pretty formatting of any document produce valid JSON text whose value is exactly the stored value, members in stored key order. Compact output contains no insignificant whitespace; pretty output puts every element on its own line indented two spaces per level, writes ' : ' after a key, opens nested containers of objects on a new line, and does not depend on what was formatted before; both are available through Display and through a caller's writer with identical text. When the writer refuses part of the text, formatting returns an error, and what the writer accepted is a beginning of that text.",
 ["inputs"], "all documents, including empty containers, every nesting up to the limit, every Unicode string including control characters, and every number",
 "Tests compare roughly seventy fixed strings; escapes for other characters, nested empties, deep nesting and the interaction of indentation with siblings are not covered.",
 ["src/format/mod.rs", "src/format/pretty.rs", "src/yason/mod.rs"],
 [("Formatter trait traversal", "src/format/mod.rs"), ("ESCAPE table", "src/format/mod.rs"), ("PrettyFormatter indent state", "src/format/pretty.rs")],
 ["Yason::format", "Yason::format_to"])

prop("P04", "Serializing and deserializing a document gives back an equal document",
 "For every document d, parsing its compact or its pretty text gives a document equal to d, and a serde round trip of d through a human-readable format (as its compact JSON text) or through a binary format (as its exact bytes) gives a document equal to d; the binary form preserves the bytes exactly.",
 ["inputs", "configurations"], "all documents; human-readable and binary serde formats",
 "One test round-trips one four-element array through bincode; the human-readable form and every other document shape are untested.",
 ["src/serde.rs", "src/json.rs", "src/format/mod.rs", "src/yason/mod.rs"],
 [("Serialize/Deserialize for YasonBuf", "src/serde.rs"), ("parse inverse of format", "src/json.rs, src/format/mod.rs")],
 ["serde Serialize/Deserialize of YasonBuf", "YasonBuf::parse", "Yason::format"])

prop("P05", "Encoded bytes follow the documented binary format and are deterministic",
 "Every document produced by a builder, a scalar encoder or the JSON parser consists of exactly the bytes the documented grammar prescribes: type bytes, little-endian total sizes, element counts, key offsets in key order, key lengths, value entries with inlined booleans (zero for null), and length-prefixed strings of 1 to 4 length bytes, with no gap and no trailing byte. The bytes depend only on the sequence of values given to the encoder, never on prior buffer contents or uninitialised memory.",
 ["inputs", "histories"], "all sequences of builder calls and all JSON texts; string lengths on both sides of every length-prefix boundary; offsets beyond 16 bits",
 "No test looks at the encoded bytes, except four length prefixes; the format is a storage contract other readers depend on.",
 ["src/vec.rs", "src/util.rs", "src/binary.rs", "src/builder/array.rs", "src/builder/object.rs", "src/builder/scalar.rs", "src/lib.rs"],
 [("skip_*/write_* back-patching", "src/vec.rs"), ("encode_varint / decode_varint", "src/util.rs"), ("total size / offsets", "src/builder/array.rs, src/builder/object.rs")],
 ["Yason::as_bytes"])

prop("P06", "Every pushed key is found, absent keys are not, keys are kept in key order",
 "In an object built with any push order (unsorted mode) or in key order (sorted mode), looking up any pushed key returns the value pushed under it and looking up any other key returns nothing. Iteration over entries, keys or values visits every member exactly once, in order of key length then byte-wise key order.",
 ["inputs", "histories"], "all key sets (empty keys, keys that are prefixes of one another, equal lengths, multi-byte, long) and all push orders",
 "Tests push one fixed set of six ASCII keys in one order; the sorted insertion and binary search depend on the permutation and on the key set.",
 ["src/builder/object.rs", "src/yason/object.rs", "src/util.rs"],
 [("sorted insertion (binary_search + memmove)", "src/builder/object.rs"), ("find_key binary search", "src/yason/object.rs"), ("cmp_key", "src/util.rs")],
 ["Object::get", "Object::contains_key", "Object::iter", "Object::key_iter", "Object::value_iter"])

prop("P07", "A builder finishes only when complete, and then holds exactly what was pushed",
 "Finishing an array or object builder succeeds exactly when as many elements were pushed as were declared and every nested builder opened from it was finished successfully; otherwise it reports an inconsistent element count or an uncompleted inner builder. Once a nested builder has been abandoned, or failed to finish, every further push or finish on its ancestors reports the uncompleted inner builder. A successful finish yields a document containing exactly the pushed values.",
 ["histories"], "all sequences of pushes, nested opens, finishes and abandonments on owned and buffer-backed builders, nested to any depth",
 "Tests try two wrong histories per builder kind; the outcome depends on the whole call history across nesting levels.",
 ["src/builder/array.rs", "src/builder/object.rs", "src/builder/mod.rs"],
 [("current_depth vs shared total depth", "src/builder/mod.rs"), ("value_count vs element_count", "src/builder/array.rs, src/builder/object.rs")],
 ["ArrayBuilder", "ArrayRefBuilder", "ObjectBuilder", "ObjectRefBuilder"],
 [("total_nested_depth", "number of open builders, shared down the chain", "src/builder/mod.rs"), ("value_count", "elements pushed so far", "src/builder/array.rs")])

prop("P08", "Containers nest up to exactly 100 levels, however they are combined",
 "Through builders or JSON parsing, any mixture of arrays and objects nested up to 100 levels is accepted and readable, and opening a 101st level is refused with the nested-too-deeply error. Only the current nesting counts: containers already finished do not reduce how deep later siblings may nest.",
 ["inputs", "histories"], "all mixtures of array/object nesting, with any number of finished siblings at any level, around the limit",
 "Tests nest a single chain of one container kind; mixtures and depth accounting after siblings finish are untested.",
 ["src/builder/mod.rs", "src/builder/array.rs", "src/builder/object.rs", "src/json.rs"],
 [("Depth increase/decrease", "src/builder/mod.rs"), ("MAX_NESTED_DEPTH check", "src/builder/array.rs, src/builder/object.rs")],
 ["push_array", "push_object", "YasonBuf::parse"])

prop("P09", "Encoding into a caller's buffer appends and leaves existing bytes alone",
 "Encoding a scalar, array, object or JSON text into a caller-supplied vector appends the document after the existing contents, leaves those contents unchanged, and returns a view of exactly the appended document. That document is byte-identical to what the owning encoder produces, whatever the vector held before or its capacity; on error the pre-existing contents are still unchanged.",
 ["inputs", "histories"], "all documents, all prior buffer contents, lengths and capacities, including a buffer reused for many documents",
 "Tests use an empty vector with spare capacity or four fixed bytes.",
 ["src/builder/array.rs", "src/builder/object.rs", "src/builder/scalar.rs", "src/json.rs", "src/vec.rs"],
 [("bytes_init_len / start_pos bookkeeping", "src/builder/array.rs, src/builder/object.rs"), ("*_with_vec", "src/builder/scalar.rs"), ("parse_to", "src/json.rs")],
 ["ArrayRefBuilder", "ObjectRefBuilder", "Scalar::*_with_vec", "Yason::parse_to"])

prop("P10", "A rejected push has no effect on the document being built",
 "When a push is refused (undeclared extra element, key or string too long, nesting too deep, inner builder unfinished) it returns an error without panicking and leaves the builder as if the call had not been made: later valid pushes and finish behave as if the refused push had never happened. In particular pushing more elements than declared is always refused, and no sequence of safe builder calls yields a corrupt document.",
 ["histories", "fault_sequences"], "all builder call histories containing any number of refused calls at any point",
 "Tests stop at the first error; what the builder contains afterwards is never examined.",
 ["src/builder/array.rs", "src/builder/object.rs", "src/vec.rs"],
 [("push_value / push_key_value_by ordering of checks and writes", "src/builder/array.rs, src/builder/object.rs")],
 ["push_* after an error", "finish after an error"])

prop("P11", "Array element access agrees with the elements and rejects bad indexes and types",
 "For every array, length, emptiness, indexed get, unchecked get, element type queries, typed accessors and iteration all report the same elements in order. An index at or beyond the length gives an out-of-bounds error carrying the length and the index, and a typed accessor on an element of another type gives a type-mismatch error naming both types.",
 ["inputs"], "all arrays (any element types, any size up to 65535) and all indexes",
 "Tests read one six-element array with matching types only.",
 ["src/yason/array.rs", "src/yason/mod.rs"],
 [("check_index", "src/yason/array.rs"), ("value entry addressing", "src/yason/array.rs"), ("check_type", "src/yason/mod.rs")],
 ["Array::{len,is_empty,get,get_unchecked,type_of,is_type,is_null,object,array,string,number,bool,iter}"])

prop("P12", "Object member access agrees with the members and rejects bad types",
 "For every object, length, emptiness, get, contains_key, member type queries, typed accessors and the entry, key and value iterators all report the same members. A key that is absent gives no value (never an error), and a typed accessor on a member of another type gives a type-mismatch error naming both types.",
 ["inputs"], "all objects (any member types and key sets) and all keys, present or absent",
 "Tests read one six-member object with matching types and present keys only.",
 ["src/yason/object.rs", "src/yason/mod.rs"],
 [("find_key / check_key", "src/yason/object.rs"), ("read_* by value position", "src/yason/object.rs")],
 ["Object::{len,is_empty,get,contains_key,type_of,is_type,is_null,object,array,string,number,bool,iter,key_iter,value_iter}"])

prop("P13", "Document equality is equality of the represented values",
 "Two documents compare equal exactly when they represent the same value: same types, equal strings, booleans and nulls, numerically equal numbers however they were written, arrays with equal elements in order, and objects with the same keys bound to equal values. The result does not depend on how, in which key order, or into which buffer either document was built, is symmetric, and never fails on well-formed documents.",
 ["inputs", "histories"], "all pairs of documents, including pairs differing in a single place at any depth and pairs built through different routes",
 "Tests compare twelve fixed pairs, all built the same way.",
 ["src/yason/mod.rs", "src/yason/array.rs", "src/yason/object.rs"],
 [("Yason::equals / LazyValue::equals", "src/yason/mod.rs"), ("Array::equals, Object::equals", "src/yason/array.rs, src/yason/object.rs")],
 ["Yason::equals", "PartialEq for Yason and YasonBuf"])

prop("P14", "Path expressions are accepted or refused exactly by the path grammar",
 "A path text is accepted exactly when it is: optional spaces, '$', then steps .name, .\"quoted\", .*, ..name, ..\"quoted\", [*], or a bracketed comma-separated list of subscripts (n, last, last - n, or x to y) with n at most 2147483647, optionally ended by one of .count() .size() .type(), with whitespace allowed between tokens. Anything else is refused with an error naming the kind of fault and the position where parsing stopped; parsing never panics, whatever the length of the text.",
 ["inputs"], "all UTF-8 strings offered as a path",
 "Tests try some forty strings; token adjacency, whitespace placement, nesting of list items, quoting and truncation at every point are an unbounded language.",
 ["src/path/parse.rs", "src/path/mod.rs"],
 [("PathParser", "src/path/parse.rs")],
 ["str::parse::<PathExpression>", "PathParseError Display"])

prop("P15", "Key, wildcard and descendant steps select exactly the matching values in order",
 "Evaluating a path selects exactly the values its steps denote, in document order and with repetitions preserved: .name and .* apply to the members of an object, and to every element (recursively through nested arrays) when met by an array; ..name selects that member at every depth, an object's own match before those inside its members in stored key order. Steps that meet a value of the wrong kind select nothing and never fail.",
 ["inputs"], "all documents and all paths made of these steps in any combination",
 "Tests run about sixty queries over two documents; combinations of steps over nested arrays, repeated descendant steps and key sets whose order differs from the text are not covered.",
 ["src/path/query.rs", "src/path/mod.rs"],
 [("object_key_match / object_wildcard_match / descendent_step_match", "src/path/query.rs")],
 ["PathExpression::query"])

prop("P16", "Array subscripts select the denoted positions, clamped to the array",
 "On an array of n elements, [i] selects element i, [last - k] selects element n-1-k, [*] selects all, and [x to y] selects the positions between its bounds inclusive in ascending order whichever bound is given first, clipped to the array and selecting nothing when both bounds lie outside on the same side; a list selects the concatenation of its items in the order written. Positions that do not exist select nothing without error (on an empty array that is every position), and a value that is not an array behaves as a one-element array holding it (selected at most once).",
 ["inputs"], "all arrays of any length including zero, non-arrays, and all subscript lists with any bounds",
 "Tests use arrays of length 2 and 5 and never an empty or one-element array, nor ranges on non-arrays.",
 ["src/path/query.rs"],
 [("array_index_match / array_last_match / array_range_match / array_multi_steps_match / array_wildcard_match", "src/path/query.rs"), ("find_range / non_array_relaxed_match", "src/path/query.rs")],
 ["PathExpression::query"])

prop("P17", "exists is true exactly when the query selects something",
 "For every document and every path without an item method, exists returns true if and only if querying with a wrapper selects at least one value. For a path ending in an item method it returns the invalid-path-expression error.",
 ["inputs"], "all documents and all paths, including those whose first match comes late in the traversal order",
 "Tests check some forty pairs over two documents; the early-exit traversal is a second code path that must agree with the full one everywhere.",
 ["src/path/query.rs", "src/path/mod.rs"],
 [("for_exists early returns", "src/path/query.rs"), ("PathExpression::exists", "src/path/mod.rs")],
 ["PathExpression::exists", "PathExpression::query"])

prop("P18", "Query returns its matches in the form requested by wrapper and buffers",
 "Without wrapper, a query yields nothing for no match, the value itself for exactly one match, and the multiple-values error for more than one match or for any path with an item method. With wrapper it yields nothing for no match, otherwise all matches: as an owned list, in the caller's query buffer, or as an encoded array in the caller's result buffer when one is given. Previous contents of either buffer, or of earlier queries through them, never influence the result.",
 ["inputs", "histories"], "all documents, paths, wrapper flags, buffer combinations, and sequences of queries reusing the same buffers",
 "Tests use fresh buffers and a few fixed paths; reuse and the full matrix of modes is not exercised.",
 ["src/path/mod.rs", "src/path/query.rs"],
 [("PathExpression::query", "src/path/mod.rs"), ("MultiValuesWithoutWrapper check", "src/path/query.rs")],
 ["PathExpression::query", "QueriedValue"])

prop("P19", "Item methods report the count, sizes and types of the selected values",
 "With wrapper, .count() yields the single number of values selected by the preceding steps (zero included), .size() yields for each selected value its element count if it is an array and 1 otherwise, and .type() yields for each selected value its lower-case type name, in selection order. When nothing is selected .size() and .type() yield nothing.",
 ["inputs"], "all documents and all paths ending in an item method",
 "Tests run each method on one selection.",
 ["src/path/query.rs", "src/path/mod.rs", "src/data_type.rs"],
 [("func_step_match", "src/path/query.rs"), ("has_method_count handling", "src/path/mod.rs"), ("DATA_TYPE_NAME", "src/data_type.rs")],
 ["PathExpression::query"])

prop("P20", "Every form of a query result carries and formats the same values",
 "For any query with matches, the owned list, the query-buffer list and the encoded array hold equal values in the same order; the encoded array is a well-formed self-contained document whose elements equal the selected values. Formatting any of these forms, compact or pretty, gives the same text: the text of the array of the selected values (or of the single value without wrapper, or nothing when nothing was selected). When the writer refuses part of the text, formatting returns an error, and what it accepted is a beginning of that text.",
 ["inputs"], "all documents and paths, including results that are nested containers up to the depth limit and results mixing all types",
 "Tests format nine fixed results.",
 ["src/path/mod.rs", "src/format/mod.rs", "src/format/pretty.rs", "src/builder/array.rs"],
 [("values_to_yason / push_object_or_array", "src/path/mod.rs, src/builder/array.rs"), ("values_format_to / write_values", "src/path/mod.rs, src/format/mod.rs")],
 ["QueriedValue::format_to", "QueriedValue::Yason"])

prop("P21", "Size limits are exact: up to the limit works, beyond it is an error",
 "Keys shorter than 64 KiB, strings up to 268435455 bytes, and containers of up to 65535 elements are stored and read back intact. Anything larger is refused with an error by builders, scalar encoders, JSON parsing and query result encoding; it is never truncated, wrapped around, silently corrupted, or turned into a panic.",
 ["inputs"], "all key lengths, string lengths and element counts on both sides of each limit and of each internal width boundary, through every entry point",
 "Tests never exceed a few hundred bytes or six elements.",
 ["src/vec.rs", "src/util.rs", "src/json.rs", "src/builder/object.rs", "src/builder/array.rs", "src/path/mod.rs", "src/binary.rs"],
 [("push_data_length limit", "src/vec.rs"), ("push_key length", "src/vec.rs"), ("element_count checks", "src/builder/array.rs, src/builder/object.rs")],
 ["push_*", "Scalar::string", "YasonBuf::parse", "PathExpression::query"])

prop("P22", "Values taken out of a document are self-contained and equal to their source",
 "The view of any nested array or object, and the document obtained by converting any value reached in a document (nested view, value re-encoding into a buffer, owned copy, clone into an existing owned document), is by itself a well-formed document equal to the value it came from, and its bytes are exactly that value's encoding. Taking it does not alter the source.",
 ["inputs"], "all documents and every value inside them at every position",
 "No test takes a nested value out and uses it as a document.",
 ["src/yason/mod.rs", "src/yason/array.rs", "src/yason/object.rs"],
 [("read_object / read_array slicing by size", "src/yason/array.rs, src/yason/object.rs"), ("Value::try_to_yason", "src/yason/mod.rs"), ("to_yason_buf / to_owned / clone_from_yason", "src/yason/mod.rs")],
 ["Array::yason", "Object::yason", "Value::try_to_yason", "Yason::to_yason_buf", "Yason::to_owned", "YasonBuf::clone_from_yason"])

prop("P23", "Scalars read back as encoded, and only through the matching accessor",
 "A scalar document of each type reads back exactly the encoded value through the accessor of that type and reports that type; every accessor of another type returns a type-mismatch error naming both types (null test: false). Converting a document to a value yields the same type and content. The type codes 1 to 6 convert to their types and back, with the names documents report; every other code is refused.",
 ["inputs"], "all strings, numbers, booleans and null, and all root accessors on every document type",
 "Tests read four strings, a few numbers and never use a mismatching accessor.",
 ["src/builder/scalar.rs", "src/yason/mod.rs", "src/vec.rs", "src/util.rs", "src/data_type.rs"],
 [("Scalar encoders", "src/builder/scalar.rs"), ("check_type and read_*", "src/yason/mod.rs")],
 ["Scalar::*", "Yason::{data_type,object,array,string,number,bool,is_null}", "Value::try_from"])

prop("P24", "Running out of memory is an error, and a failed call changes nothing",
 "When the allocator cannot supply memory, the builders, scalar encoders, conversion from a JSON value, copying a value into a document, path parsing, queries and exists either succeed or return the out-of-memory (TryReserveError) error; they do not abort, panic or lose data. A call that failed this way has no effect: the builder, the document and the caller's vector contents are as before, the call can be made again or another one instead, and everything afterwards behaves as if the failed call had never been made.",
 ["fault_sequences", "histories"], "memory running out at any allocation of any call, in any history of building and querying, repeatedly, with the same or another call tried afterwards",
 "No test runs with a failing allocator.",
 ["src/vec.rs", "src/builder/array.rs", "src/builder/object.rs", "src/builder/scalar.rs", "src/json.rs", "src/path/mod.rs", "src/path/parse.rs", "src/yason/mod.rs"],
 [("try_reserve before committing entries", "src/builder/array.rs, src/builder/object.rs"), ("try_with_capacity", "src/vec.rs"), ("try_reserve of steps, keys and results", "src/path/parse.rs, src/path/mod.rs")],
 ["ArrayBuilder/ObjectBuilder::*", "Scalar::*", "YasonBuf::try_from(&Value)", "Value::try_to_yason", "PathExpression::{from_str,query,exists}"])

prop("P25", "A document that was cut short is reported, never misread",
 "If only the first n bytes of a document are there (n from 1 to its length minus 1), then in builds without debug assertions every reading call on them - accessors by index and by key, iteration, formatting, equality, queries, exists - either gives exactly the answer it gives on the whole document, or the out-of-bounds error. It never panics, never reads outside the bytes it was given, never returns a shortened string, another value, or a member as absent, and an iteration either yields every item or reports an error.",
 ["inputs", "crash_points"], "all documents, all lengths at which they can be cut, and all reading calls",
 "No test reads a damaged document.",
 ["src/yason/mod.rs", "src/yason/array.rs", "src/yason/object.rs", "src/util.rs", "src/format/mod.rs", "src/path/query.rs"],
 [("bounds-checked get/slice", "src/yason/mod.rs"), ("decode_varint", "src/util.rs"), ("find_key, read_key", "src/yason/object.rs")],
 ["Array::*", "Object::*", "Yason::{string,number,bool,format_to,equals}", "PathExpression::{query,exists}"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
