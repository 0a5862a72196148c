#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
T = "json/src/deserialize/text.rs"
M = "json/src/deserialize/mod.rs"
N = "json/src/deserialize/number.rs"
S = "json/src/serialize/text.rs"
SM = "json/src/serialize/mod.rs"
JH = "json/src/helper.rs"
CH = "core/src/helper.rs"
CD = "core/src/deserialize.rs"
CS = "core/src/serialize.rs"
NM = "core/src/name_map.rs"
TR = "core/src/text_reader.rs"
TW = "core/src/text_writer.rs"
DD = "derive/src/deserialize.rs"
DS = "derive/src/serialize.rs"
DL = "derive/src/lib.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "JSON round trip gives back the value that was written",
  "For every value of a supported type (booleans, every integer width, finite floats, characters, strings, options nested to any depth, tuples, fixed arrays, lists, non-zero integers, unit, and derived structs and enums), writing it as JSON and reading that text back as the same type yields an equal value. This holds for compact and indented output, and whether the text travels through a string or through a byte sink and byte source.",
  ["inputs", "configurations"], "all values of all supported types and their nestings x output layout x transport",
  "The tests serialize and deserialize separately on about forty fixed literals and never compose the two except in an ignored float test; sizes, nesting, unicode and boundary numbers are not sampled.",
  [CS, CD, S, T, N, DD, DS], [("paired Serialize/Deserialize impls", CS+", "+CD), ("text serializer", S), ("text deserializer", T)],
  ["to_str / to_writer / TextSerializer then from_str / from_reader"])

p("C02", "Serialized output is valid JSON that denotes exactly the written value",
  "Whatever sequence of correct serializer calls is made (typed values, objects with arbitrary keys, sized and streaming lists, character-by-character strings, tuples, tags), the text produced is a single valid RFC 8259 JSON document whose structure, key order, strings and numbers are exactly those written. This includes strings and keys with quotes, backslashes and every control character, and holds under every layout configuration.",
  ["programs", "inputs", "configurations"], "all legal call sequences on the serializer x all strings/numbers x all layout configurations",
  "The tests compare a dozen outputs against literals; no test escapes anything but tab and newline, writes a key that needs escaping, or checks the text with an independent parser.",
  [S, SM, CS, JH], [("string escaping", S+" append_char"), ("separator and indentation state", S+" push_item/add_entry/close_*"), ("key state", S+" add_entry/close_str")],
  ["text handed to the TextWriter"], [("at_first / depth / in_key", "where in a container the writer is", S)])

p("C03", "The strict parser accepts exactly the RFC 8259 language",
  "In the default strict configuration, consuming a text in full (by reading or by skipping its values, in any order the interface allows) succeeds if and only if the text is a valid RFC 8259 JSON document, and then the values seen are those the document denotes. Every malformed text - truncated, with trailing or missing separators, bad literals, bad numbers, bad escapes, raw control characters in strings, unpaired surrogates, or trailing garbage - is rejected with an error, even when the malformed part is in data the caller skips.",
  ["inputs", "histories"], "all texts (exponents up to 32 bits, duplicate keys included) x all consumption orders",
  "The tests feed about twenty well-formed literals and five malformed numbers; almost no malformed structure is tried, and none while buffering out-of-order entries, which uses a second parser.",
  [T, M], [("streaming parser", T+" TextReaderExt"), ("look-ahead (buffering) parser", T+" read_lookback_value"), ("end-of-input check", T+" close")],
  ["Ok/Err of the whole consumption, and the values delivered"])

p("C04", "Object entries can be read in any order, each exactly once, nothing lost",
  "However the caller interleaves asking for entries by name (present, absent or already taken), asking for the next unread entry, reading, partially reading and skipping values, at any nesting depth, each value delivered is the one the document has at that place. Every entry is delivered at most once, 'next unread' delivers the remaining entries in document order, absence is reported exactly for keys that are not left, and after the walk the deserializer can be closed cleanly.",
  ["histories", "inputs"], "all documents x all legal interleavings of by-name, next-entry, item, read and skip operations",
  "Three tests walk three fixed documents in one order each; the interplay of buffered entries, nested buffered containers, exhausted objects and streaming depth is a state machine with unboundedly many histories.",
  [T, M, JH], [("look-back items and key table", T+" try_push_entry/next_entry/open_object/first_unread_child"), ("sibling links", T+" correct_items")],
  ["results of try_push_entry/next_entry/next_item and the values read"],
  [("lookback_items", "parsed but undelivered values", T), ("lookback_keys", "keys of buffered entries of open objects", T), ("streaming_depth", "deepest container still being streamed", T)])

p("C05", "Integers are read exactly or refused, never wrapped or rounded",
  "Reading a JSON number as any integer type yields its exact mathematical value or an error; a value that is out of range or not an integer is always refused. A literal written as plain digits (with optional minus) that fits the type is always accepted, and so is one with fraction or exponent whenever its value fits and neither its digit sequence nor its power of ten exceeds the type's magnitude. Writing any integer produces its exact decimal digits.",
  ["inputs"], "all number literals x all integer types and non-zero types x streaming, list, object and buffered positions",
  "The tests check sixteen literals on four types at top level only; the boundaries of most widths, exponents, fractions and the buffered digit encoding are untested.",
  [N, T, S, CD], [("checked digit accumulation and scaling", N), ("buffered digit nibbles", T+" LookbackNumBuilder/read_number"), ("itoa", S)],
  ["integer returned or error"])

p("C06", "Floats are correctly rounded on reading and exact on writing",
  "Reading any JSON number as f32 or f64 gives the nearest representable value (ties to even, overflow to infinity, signed zero kept), in every position where a number can be read and regardless of digit count or exponent. Writing any finite float gives a number that any conforming parser reads back to the identical bits.",
  ["inputs"], "all number literals x both float types x streaming and buffered positions; all finite bit patterns",
  "Six literals are tested; the exhaustive f32 test is ignored, compares with ==, and never goes through the buffered path or long digit strings.",
  [N, T, S], [("digit buffer, small and spilled", N+" FloatBuilder"), ("buffered numbers", T+" LookbackValue::Number"), ("ryu", S)],
  ["bit pattern returned; text written"])

p("C07", "Strings and keys are decoded character for character on every path",
  "A JSON string, whether a value or an object key, read whole or character by character, in streaming order or after having been buffered, from text or byte input, yields exactly the characters it denotes, with all RFC 8259 escapes including surrogate pairs decoded. A string partly read character by character can then be finished or skipped without loss, duplication or damage to what follows, and closing it before its end is refused.",
  ["inputs", "histories"], "all string literals x all read paths and partial-read histories",
  "Two tests decode tab and newline; unicode escapes, multi-byte text, keys sharing prefixes, partial reads and buffered strings are not covered.",
  [T, CD, JH], [("escape decoding", T+" read_escape_sequence"), ("four string readers", T+" next_char/read_str_bytes_into/read_str_bytes_into_or_match"), ("default string methods", CD)],
  ["characters returned by get_str, next_char, flush_str, Entry::key, names matched"])

p("C08", "No input makes deserialization crash, hang or recurse without bound",
  "For every input text, however malformed, truncated, long or deeply nested, and every target type whose own nesting is bounded, reading and skipping terminate with a value or an error after work proportional to a small multiple of the input: no panic, arithmetic overflow, stack overflow or endless loop.",
  ["inputs"], "all texts x a family of typed and untyped consumers, including nesting depth in the hundreds of thousands",
  "Tests contain only short friendly documents; a single panic site on an unusual path is invisible to them.",
  [T, M, N, CD], [("explicit error returns", T), ("non-recursive skipping", M+" skip_value"), ("checked arithmetic", N)],
  ["process outcome, reader step count"])

p("C09", "Byte-stream input behaves exactly like string input",
  "Deserializing from a byte stream in UTF-8 gives the same value, or the same error message at the same place of the text, as deserializing the same text from a string, no matter how the stream splits its data into reads (inside characters included) or is interrupted.",
  ["inputs", "schedules"], "all texts x all read chunkings and interruptions x all target types",
  "Every deserialization test uses string input; the byte reader is only tested by decoding one string from a slice.",
  [TR, T], [("character decoder", TR+" read_utf8"), ("byte reader", TR+" Utf8Reader"), ("generic parser", T)],
  ["result and error of from_reader vs from_str"])

p("C10", "Errors point at the offending place, however the entry was reached",
  "When reading fails because a value has the wrong type, is out of range, is an unknown name or index, or is rejected by a user's validation, the reported position is the first character of that value; when a required key or item is missing or one is in excess, it is the start of the container; and the message, as value and as shown, names the failure with the expected types, the key, the index or the allowed names (the user's own error stays reachable as the source). A syntax error is reported no later than the first character (an escape sequence counted as one) that cannot continue a valid document and no earlier than the start of the token it is in. These positions do not depend on whether the value was streamed or buffered.",
  ["inputs", "histories"], "all documents with an injected fault x all access orders x string and byte readers",
  "No test looks at an error position or message at all; is_err() is the only assertion.",
  [T, TR, CH, CD], [("error position tracking", T+" error_pos"), ("stored item positions", T+" LookbackItem/StackItem"), ("validate_with", CH)],
  ["DeserializeError::position/message/source"])

p("C11", "UTF-8 is decoded and encoded exactly as the standard defines it",
  "Decoding characters from any byte sequence yields exactly the characters of its longest valid UTF-8 prefix, then an error if an invalid or partial sequence follows and end-of-data otherwise: overlong forms, surrogates, stray continuation bytes and out-of-range values are never accepted and never crash. Writing characters or strings to a byte sink emits exactly their UTF-8 bytes.",
  ["inputs", "schedules"], "all byte sequences (every 1-3 byte sequence enumerated, 4 byte boundary classes) x read chunkings",
  "One test decodes one valid nine-character string; no invalid byte has ever been tried.",
  [TR, TW], [("decoder", TR+" read_utf8"), ("encoder", TW+" Utf8Writer")],
  ["result sequence of read_utf8; bytes written"])

p("C12", "A failing byte sink is reported, and what was written is a clean prefix",
  "If the destination fails at any point while a value is being serialized, serialization stops and returns that error; it does not panic, does not report success, and writes nothing after the failure. The bytes accepted before the failure are a prefix of the output that a healthy destination would have received, also when the destination accepts data in arbitrary small pieces.",
  ["fault_sequences", "inputs"], "all values x every write call as failure point x short and interrupted writes",
  "No test uses a writer that can fail, or any byte writer at all.",
  [S, TW, SM, CH], [("error propagation with ?", S), ("write_all", TW)],
  ["Result of to_writer, bytes recorded by the sink"])

p("C13", "Name tables find exactly the names they contain",
  "For every table of distinct names, in any order of construction, looking up a string returns the value associated with that name if it is in the table and nothing otherwise, no matter into which pieces (characters, strings, raw UTF-8 bytes split anywhere, empty pieces) the looked-up string is written. Prefixes, extensions and neighbours of names never match, and enumeration lists every entry exactly once.",
  ["inputs", "histories"], "all name sets (0 to a few hundred entries, shared prefixes, empty and multi-byte names) x all queries x all chunkings",
  "Two tests use one table of eleven ASCII names and four misses, always written in one piece.",
  [NM], [("const quicksort", NM+" sort_entries"), ("incremental binary search", NM+" write_bytes")],
  ["NameMap::get, NameMapLookup::result, entries, size"])

p("C14", "Derived types map to JSON exactly as their attributes say",
  "A derived struct or enum is written with exactly the names, order, tag, flattening and variant names its attributes specify, and is read from an object with its keys in any order and with unknown extra keys ignored, or from an array with its fields in order and none extra. A missing required key, an unknown variant name or an unassigned variant index is an error; a missing or null defaulted field takes its default; proxied fields are converted; variants are accepted by name and by assigned index.",
  ["programs", "inputs"], "a family of derived types covering every attribute, generic parameters and nesting x all key orders, omissions, extras and array forms",
  "Each attribute is tested in one type with one document in declaration order; omissions, extras, array form, permutations and attribute combinations are not.",
  [DD, DS, DL, M], [("code generation", DD+", "+DS), ("attribute parsing", DL), ("object-or-array structs", M+" open_struct/push_field/close_struct")],
  ["to_str and from_str of derived types"])

p("C15", "Wrappers allow all correct use and stop incorrect use before damage",
  "Correct use of the value, struct, tuple, list, object, entry and collection wrappers never panics, including the temporary scoped forms. Leaving an obtained value unconsumed before touching its parent, closing too early, pushing beyond or below a declared list length, reading a key twice, using a value already found to be null, or finishing a scope whose item was not consumed, always panics instead of producing a wrong document or value, and the reported remaining length of a list is always right.",
  ["programs"], "all small sequences of wrapper calls, legal and illegal, on JSON and on a checking backend",
  "Tests only use the wrappers correctly, and never use the scoped struct/tuple forms or sized lists.",
  [CH, JH, M, SM], [("done/ready flags and remaining length", CH+", "+JH)],
  ["panic or not; calls reaching the backend"], [("done_flag/ready_flag/rem_len", "what the wrapper believes about the stack", CH)])

p("C16", "Reading in document order is streaming: bounded look-ahead and memory",
  "When a document is consumed in its own order, each value is delivered without consuming input beyond it (at most the separator and whitespace leading to the next item), strings read character by character included, and the memory held does not grow with the number of items (or characters, or skipped values) already consumed. Writing likewise passes data to the sink as it goes, and holds memory bounded by nesting rather than by output size.",
  ["inputs", "histories"], "all documents read in order, long sequences of items and entries",
  "No test observes how much of the input has been consumed at an intermediate point, nor memory.",
  [T, S, TR], [("streaming states", T+" DeserializerState"), ("immediate match of requested key", T+" try_push_entry")],
  ["characters taken from an instrumented reader after each call; live heap bytes"])

p("C17", "Whitespace and permitted comments never change the outcome",
  "Inserting JSON whitespace at any place between tokens changes no value read, in any access order. With comments enabled, inserting line or block comments (of any content, line comments also ended by the end of input) at any such place changes nothing either; with comments disabled, any comment is an error; an unterminated block comment is always an error. With comments enabled, the texts accepted are exactly the JSON documents with such insertions.",
  ["inputs", "configurations", "histories"], "all documents x all insertion points and comment bodies x access orders x both configurations",
  "One test has one block and one line comment before keys read in order; comments inside buffered values, after colons, in arrays, or at the end are not tried.",
  [T], [("whitespace and comment skipping", T+" skip_whitespace/skip_comment/skip_to_*/skip_past_colon/read_lookback_value")],
  ["values read under both configurations"])

p("C18", "The layout setting changes whitespace only, and indents consistently",
  "For any sequence of serializer calls, the compact and every indented output consist of the same tokens in the same order. Compact output has no line break; indented output puts every entry and item on its own line, indented by exactly one unit per enclosing container, with closing brackets at their container's level and empty containers kept on one line.",
  ["configurations", "programs"], "all call sequences x all indentation units",
  "One test compares one indented document with two levels.",
  [S], [("indentation", S+" push_item/add_entry/close_list/close_object")],
  ["text written"])

p("C19", "Null, absent and nested options are told apart correctly",
  "An optional value is read as absent exactly for null or a missing key and as present otherwise, an option of an option keeps its levels distinct in both directions, and a value that is present but invalid is an error rather than absent. Reading a required value from null or from a missing key is an error, never a default.",
  ["inputs", "configurations"], "all option nestings over all element types x null / missing / valid / invalid inputs x object, list, tuple, array-form and buffered positions",
  "Three documents of one type are tested, in streaming object order only.",
  [CD, CS, T, M], [("null niche", CD+", "+CS+" NULLABLE"), ("virtual null", T+" push_null/NullValue")],
  ["value or error"])

p("C20", "Skipping a value is equivalent to reading and discarding it",
  "Skipping any value, the rest of a string, or the rest of an object, explicitly or because a struct does not know the key, leaves everything that follows exactly as if it had been read completely, and succeeds for valid data of any nesting depth. Values ignored by a typed reader are still required to be valid JSON.",
  ["inputs", "histories"], "all documents x all choices of which values to skip x streamed and buffered positions, nesting to hundreds of thousands",
  "No test skips a value explicitly or has an unknown key.",
  [M, T, CD, JH], [("skip_value/skip_object/skip_str", M+", "+CD), ("close_struct", M)],
  ["values read after the skip; Ok/Err"])

p("C21", "Types drive any conforming format backend by the documented protocol",
  "Every built-in and derived serializable type, when used with any backend (with or without null support, with or without known list lengths, tags by name or by index), makes only calls that are legal for the current stack, leaves the stack as the protocol requires, declares list lengths correctly, and reads back exactly the sequence of items it writes, so that a value survives the trip through any such backend.",
  ["programs", "configurations", "inputs"], "all built-in and derived types and values x backend capability combinations, checked call by call",
  "All tests use the JSON backend, which ignores list lengths and indices and always supports null, so the format-neutral half of the library is never observed.",
  [CS, CD, CH, DD, DS, "core/src/outliner.rs"], [("generic impls", CS+", "+CD), ("default methods", CS+" put_str/append_str; "+CD+" flush_str/read_str/get_name")],
  ["trace of Outliner/Serializer/Deserializer calls on a checking backend"])

p("C22", "The caller's context reaches every nested value, once, in order",
  "When a value is serialized or deserialized with a user-supplied context, every nested value that uses the context sees that same context object, exactly once, in the order in which the values are written or declared, through options, tuples, arrays, lists, generic, flattened, transparent, defaulted and proxied derived fields.",
  ["programs", "inputs"], "all nestings of built-in and derived containers over context-recording leaves",
  "Every test uses the empty context.",
  [CS, CD, CH, JH, DD, DS, M, SM], [("context argument threading", CS+", "+CD+", "+DD+", "+DS)],
  ["log kept in the context by leaf types"])

p("C23", "No input or call sequence causes undefined behaviour",
  "No text, value, name table or sequence of calls through the safe interface makes the library read or write out of bounds, use uninitialised or freed memory, create an invalid string, violate aliasing rules, or leak memory.",
  ["inputs", "histories"], "the workloads of the other properties re-run under an undefined-behaviour interpreter and an address sanitizer",
  "The tests run without any sanitizer, so undefined behaviour in the unchecked string conversions and the slice transmute would go unnoticed.",
  [T, N, NM, TR], [("unchecked UTF-8 conversions", T+", "+N), ("slice transmute", NM+" unfix"), ("raw hash table", T)],
  ["Miri and AddressSanitizer/LeakSanitizer reports"])

p("C24", "Character readers keep peek, next, position and bulk reads consistent",
  "For every text and every sequence of operations, a character reader's peek shows the character that next then returns, the sequence of characters is exactly the text with end-of-input permanent, and bulk operations (matching an expected string, reading until a predicate) consume and return exactly what repeated single steps would. Positions compare in reading order and, for byte streams, state the line and column computed from the characters consumed (a tab counts four columns, a carriage return none).",
  ["histories", "inputs", "schedules"], "all texts x all operation sequences x string and byte readers x read chunkings",
  "No test exercises positions, read_until or read_exact, or the byte reader type itself.",
  [TR], [("string reader", TR+" impl TextReader for &str"), ("byte reader", TR+" Utf8Reader"), ("prefix", TR)],
  ["results of each reader call against a reference cursor"])

p("C25", "A failing or malformed byte source never yields a value",
  "If the byte source reports an error, or its data is not valid UTF-8, at any point before the document has been read to its end, deserialization does not return a value: the failure reaches the caller as an error. In particular a source error is never mistaken for the end of the input or for different characters.",
  ["fault_sequences", "inputs"], "all documents x every byte offset as failure or corruption point x target types",
  "No test reads from a fallible source.",
  [TR, M], [("error handling in the byte reader", TR+" Utf8Reader/read_utf8")],
  ["outcome of Utf8Reader::new + from_reader over a fault-injecting source"])

p("C26", "Enum tags resolve to the one variant they name, by name or by index",
  "Reading an enum tag accepts exactly the known names (as strings, escapes and buffering included) and the integer indices up to the allowed maximum, and yields the index belonging to that name or number; any other string, number, or type is an error. Writing a tag emits its name when it has one and its index otherwise.",
  ["inputs", "configurations"], "all name tables and maximum indices x all JSON values as tag x streaming and buffered positions",
  "Two hand-written three-name tables are tested at top level.",
  [M, SM, CD, NM], [("get_tag/put_tag", M+", "+SM), ("flush_name", CD)],
  ["index or error; text"])

p("C27", "Results depend only on the input and the calls made",
  "The outcome of reading, writing or looking up a name - values, text, error message and position - depends only on the input, the sequence of calls and the context. It is the same on every repetition and in every process, whatever the same thread did before (including with deserializers and serializers that failed, were dropped half way or unwound by a panic), whatever else is read or written in between (including from within the reader, the writer, or a user's own Serialize and Deserialize implementations), when several threads use the library at once, and when a deserializer or serializer is continued on another thread.",
  ["histories", "schedules", "inputs"], "all inputs and call sequences x everything done before, in between and at the same time by this or other threads",
  "Tests run each operation once on a fresh instance; leftovers of a failed, abandoned or enclosing operation never meet another one.",
  [T, N, S, NM, TR, TW, DD], [("deserializer state", T+" TextDeserializer"), ("key hashing", T+" key_hash"), ("serializer state", S+" TextSerializer"), ("name tables", NM+" NameMapLookup")],
  ["complete record of the outcome of a job, compared with its first record"])

p("C28", "Derive macros honour every supported declaration and refuse the rest",
  "Every declaration of a struct with named fields or an enum that uses the supported attributes within their documented places (fields: rename, default, flatten, proxy for reading; variants: rename, reindex, transparent, integer literal discriminants; enums: tag, rename) compiles, whatever its fields, variants, type and const parameters, lifetimes, bounds and where clauses are called, including raw and non-ASCII identifiers, and its values map to JSON exactly as the attributes say, also when such types are nested in, flattened into or instantiated with each other: the written text, every permuted, reduced, extended or positional form of it is read as that value, and a text with one required part missing, surplus or of the wrong kind is refused. An attribute on a field (other than the sole field of a transparent variant), variant or enum that is unknown, misspelt, misplaced or malformed, transparent on a variant without exactly one field, a discriminant that is not an integer literal, and a union are refused at compile time instead of being ignored.",
  ["inputs", "programs"], "all declarations x all values x all equivalent and all faulty JSON forms",
  "The tests derive for a handful of fixed types; names, generics and combinations of attributes multiply, and tests that do not compile are not tests.",
  [DL, DS, DD, CH], [("expand (Serialize)", DS), ("expand (Deserialize)", DD), ("FieldRepr/VariantRepr/EnumRepr::get", DL), ("Struct, Tuple", CH)],
  ["text written, value or error read, compiler diagnostics of generated programs, against a model of the attributes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
