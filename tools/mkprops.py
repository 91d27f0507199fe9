# Writes /verif/properties.jsonl.  Kept so that the file is easy to maintain.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
L, S, C, F, U, UT, M, D, H = ("src/load.c", "src/save.c", "src/copy.c", "src/free.c", "src/util.c",
    "src/utf8.c", "src/mem.c", "src/data.h", "include/cyaml/cyaml.h")

p("C01", "Loading is memory safe and terminates on any input",
  "For any byte string given as a YAML document, any well formed schema and any configuration, loading (from memory or from a file) ends by returning a result code. It never reads or writes outside the memory of its input, schema, configuration and own allocations, never uses uninitialised or released memory, and never executes undefined behaviour; nor does freeing, saving or copying whatever it loaded.",
  ["inputs", "configurations"], "every byte string (valid, damaged or hostile YAML, invalid UTF-8, deep nesting, alias tricks) x every well formed schema x every configuration",
  "The tests load a few hundred hand written, mostly well formed documents with fixed schemas; memory safety quantifies over every input, and tests assert results rather than watch accesses.",
  [L, F, D, UT, U, M], [("event dispatch table by state and event", "src/load.c cyaml__load_event"), ("state stack growth", "src/load.c cyaml__stack_ensure"), ("event recording and replay for anchors", "src/load.c cyaml__handle_record, cyaml__handle_replay"), ("value size checks before writes", "src/data.h cyaml_data_write; src/load.c cyaml__store_*"), ("UTF-8 decoding bounds", "src/utf8.c")],
  ["return of cyaml_load_data / cyaml_load_file under ASan and UBSan"])

p("C02", "A loaded structure holds exactly what the document says",
  "When a load succeeds, every member described by the schema holds the value its document entry denotes by the schema's type (integers in any base of C notation, booleans, enumerations, flags, bit fields, floats, strings, nested mappings and sequences), and each sequence count member holds its number of entries. This is so for every storage width, signedness, pointer or inline storage, field order and nesting, and members of the client structure that the schema does not describe read as zero.",
  ["inputs", "configurations"], "every schema over all twelve value types x every conforming document",
  "Tests check fixed schemas with a few widths and values each; fidelity must hold for every combination of type, width, flags, nesting, order and value.",
  [L, D, H], [("conversion and range check per type", "src/load.c cyaml__read_*, cyaml__store_*"), ("little and big endian value writes", "src/data.h"), ("sequence growth and count update", "src/load.c cyaml__seq_entry, cyaml__data_handle_pointer"), ("field lookup", "src/load.c cyaml__get_mapping_field_idx")],
  ["client structure after cyaml_load_data returns CYAML_OK"])

p("C03", "Documents that break the schema are rejected, conforming ones accepted",
  "A load succeeds if and only if the first document of the stream is well formed YAML and conforms to the schema: right kinds of node, numbers in notation and in range of their storage and limits, string lengths, known enumeration and flag names where strict, bit field values that fit, entry counts within limits, required fields present, no unknown or repeated keys. When it does not conform, the load returns the error code documented for the first offending item in document order.",
  ["inputs", "configurations"], "every schema x every document, conforming or broken in any one or more places",
  "The error tests sample one violation per kind at one position in one schema; acceptance and rejection have to be right for every violation at every position, width and limit.",
  [L, UT, H], [("node kind check", "src/load.c cyaml__validate_event_type_for_schema"), ("range checks", "src/load.c cyaml__store_int, cyaml__validate_int and friends"), ("missing and repeated fields", "src/load.c cyaml__mapping_bitfieid_validate, cyaml__map_key_check_field"), ("entry limits", "src/load.c cyaml__seq_entry, cyaml__seq_end")],
  ["result code of cyaml_load_data"])

p("C04", "A failed operation leaves nothing behind",
  "When a load, save or copy fails, for whatever reason and at whatever point, the caller's output parameters keep the values they had and every block the operation obtained through the client's memory function has been released exactly once. The same configuration and schema can then be used again and give the same results as if the failed call had never been made.",
  ["inputs", "fault_sequences", "histories"], "every failure: damaged document at any position, schema violation, validation refusal, save of unrepresentable data, copy of bad data",
  "Tests reach a few tens of failure points and look for leaks only where they happen to be; atomicity is about every point of failure.",
  [L, S, C, F], [("failure exits free the partial data", "src/load.c cyaml__load out:"), ("outputs assigned only on success", "src/load.c, src/save.c cyaml_save_data, src/copy.c cyaml_copy"), ("recorded event cleanup", "src/load.c cyaml__free_recording")],
  ["client allocator's live set and output parameters when an API call returns an error"])

p("C05", "Running out of memory at any point is reported cleanly",
  "If the client's memory function refuses any one allocation request, or any request from some point on, during load, copy, save to memory or save to file, the call returns the out-of-memory error and everything else obtained has been released exactly once. No memory is misused, caller outputs are unchanged, source data are intact, and repeating the call with memory available succeeds with the same result as if no refusal had happened.",
  ["fault_sequences", "inputs", "configurations"], "every allocation request of an operation failing (once, or from there on) x operation x schema and document",
  "The tests fail each allocation of a handful of operations; the allocation sequence depends on schema, document, anchors, defaults and nesting, which they fix.",
  [L, S, C, F, M], [("allocation failure exits", "src/load.c, src/copy.c, src/save.c: checks for NULL after cyaml__alloc/realloc/strdup"), ("old block kept on failed growth", "src/mem.c cyaml__realloc")],
  ["client memory function requests and refusals, result codes, live set"])

p("C06", "Allocations go through the client's memory function and free releases all",
  "Everything that the library allocates for client data and for its own bookkeeping comes from the configured memory function, always passing its context; a block is resized or released only while it is live and only through that function. Freeing loaded or copied data with the same schema and count releases exactly the blocks that make up the data, each once, and touches nothing else; all other blocks are already gone when the call that obtained them returns.",
  ["inputs", "histories", "configurations"], "every schema x document x sequence of load, copy, save and free calls, with several allocators in use",
  "Tests use counting or plain allocators on fixed data; double release, foreign release and leaks depend on the shape of the data and on the interleaving of operations.",
  [F, M, L, C, S], [("recursive release by schema", "src/free.c cyaml__free_value, cyaml__free_sequence, cyaml__free_mapping"), ("allocation helpers", "src/mem.c, src/mem.h")],
  ["every call of the client memory function (context, pointer, size) against a model of the live set"])

p("C07", "Saved data loads back as equal data",
  "Data that the schema can represent, when saved (to memory or file) and loaded again with the same schema, yields data equal to the original. This holds for every value of every type and width (extreme and negative numbers, every float and every normal double, unusual strings, multi-bit flags, bit fields), for every combination of presentation flags, and for absent, NULL and empty values where the schema distinguishes them.",
  ["inputs", "configurations"], "every schema without ambiguous names x every representable value x presentation flags in schema and configuration",
  "Round trip tests fix the data and compare text; save and load must be inverse on the whole value space.",
  [S, L, D], [("sign extension and number formatting", "src/save.c cyaml_sign_pad, cyaml__get_*"), ("enum and flag names with numeric fall back", "src/save.c cyaml__write_enum, cyaml__emit_flags_sequence; src/load.c cyaml__read_enum, cyaml__set_flag"), ("NULL and empty values", "src/save.c cyaml__write_value")],
  ["client data before save and after load"])

p("C08", "A copy is a complete and independent clone",
  "Copying data in which every pointer the schema requires is set gives data equal to the source in every member the schema describes, with the same NULL pointers and counts, whether the target is allocated or supplied by the caller. The copy shares no memory with its source: freeing or altering either leaves the other intact, and the source is not modified.",
  ["inputs", "histories", "configurations"], "every schema (all types, inline and pointer storage, nested sequences of sequences, optional and NULL values) x every value x order of releasing",
  "Copy tests cover fixed shapes; missing a pointer in one nesting shape would share memory or lose data only for that shape.",
  [C, D, F], [("schema walk with per value copy", "src/copy.c cyaml__clone_*"), ("size of inline data", "src/copy.c cyaml__get_data_len")],
  ["both structures after cyaml_copy, pointer sets, after freeing one"])

p("C09", "Saved documents are well formed and follow the data and the flags",
  "Every successful save produces one well formed YAML document that consists of exactly the nodes the data and schema call for, in schema and sequence order: scalars denoting exactly the stored values, optional absent pointers omitted, ignored fields omitted. The block, flow, quoting and document delimiter flags are honoured with schema values taking precedence over the configuration, and saving to a file writes exactly the bytes that saving to memory returns.",
  ["inputs", "configurations"], "every schema x representable data x style and delimiter flags",
  "Save tests compare fixed texts for fixed data; output must be right for all data, in particular strings that need quoting or escaping and deep or long structures.",
  [S], [("event emission by state", "src/save.c cyaml__write_mapping, cyaml__write_sequence, cyaml__write_value"), ("styles", "src/save.c cyaml__get_emit_style*"), ("output buffer growth", "src/save.c cyaml__buffer_handler")],
  ["output bytes parsed again into events"])

p("C10", "Anchors and aliases behave like writing the anchored node out in full",
  "Loading a document with aliases gives the same result as loading the document in which each alias is replaced by a copy of the latest completed node carrying its anchor, for scalars, sequences and mappings, nested and redefined anchors, aliases within anchored nodes, anchors inside ignored parts and aliases used as keys. An alias with no completed anchor before it (including one inside its own anchored node) is rejected, and with aliases disabled in the configuration every alias is rejected while anchors have no effect.",
  ["inputs", "configurations"], "every document with anchors and aliases placed anywhere x schema x configuration",
  "Alias tests hold a few dozen fixed documents; recording and replaying has state (open anchors, nested replays, redefinition) whose combinations are unbounded.",
  [L], [("anchor recording", "src/load.c cyaml__handle_anchor, cyaml__handle_record, cyaml__record_stack_push/pop"), ("replay", "src/load.c cyaml__handle_alias, cyaml__handle_replay")],
  ["result of loading aliased and expanded documents"],
  [("recording", "events kept for anchors, open and complete", "src/load.c cyaml_event_record_t"), ("replay", "position within the anchor being replayed", "src/load.c cyaml_event_replay_t")])

p("C11", "Absent optional fields get their defaults",
  "After a successful load each optional field that its mapping does not give holds the default value its schema sets, of whatever type, including strings, mappings and sequences with their counts and nested data, held inline or by pointer; without a default the field is zero or NULL. Defaults are applied per mapping occurrence, do not disturb other fields, are independent copies that share no memory with the schema, and given fields never get a default.",
  ["inputs", "configurations"], "every schema with defaults x every subset of fields present, in every mapping occurrence",
  "Tests check defaults one type at a time in one flat mapping; correctness quantifies over shapes of default data and combinations of absent fields.",
  [L, C], [("default application at the end of each mapping", "src/load.c cyaml__mapping_bitfieid_validate, cyaml__field_apply_default, cyaml__field_scalar_apply_default")],
  ["client structure after load; allocator live set"])

p("C12", "Name matching follows the case sensitivity rules",
  "Mapping keys, enumeration strings, flag names and bit field names match document text exactly when they are equal byte for byte, or, where case insensitive matching applies, when they are equal after folding the case of letters in the Basic Latin, Latin-1, Latin Extended-A and Extended-B blocks. Case sensitivity set in a schema value takes precedence over the configuration, sensitive is the default, and comparison is memory safe, reflexive, symmetric and consistent for any bytes, valid UTF-8 or not.",
  ["inputs", "configurations"], "every pair of strings x every combination of schema and configuration case flags x every kind of name",
  "Tests compare some tens of string pairs; there are thousands of folding pairs and unbounded strings with multi-byte, truncated and invalid sequences.",
  [UT, U, L], [("case folding tables", "src/utf8.c cyaml_utf8_to_lower"), ("decoding", "src/utf8.c cyaml_utf8_get_codepoint"), ("precedence of flags", "src/util.c cyaml__is_case_sensitive / cyaml__strcmp")],
  ["accept or reject by cyaml_load_data of a name against a schema name"])

p("C13", "A save that did not reach its destination is never reported as success",
  "If saving to a file returns success then the file holds the complete document. Any failure to open, write, flush or close the destination, at whatever byte, makes the save return an error, with nothing leaked and the file descriptor closed.",
  ["fault_sequences", "inputs"], "a write failing at any byte of the output, partial writes, full device, file size limit, failing close x schema and data",
  "The tests write small files to a healthy disk; failure points are every byte of every possible output.",
  [S], [("emitter failure propagation", "src/save.c cyaml__emit_event_helper, cyaml__save"), ("close check", "src/save.c cyaml_save_file")],
  ["result of cyaml_save_file against the bytes that reached the stream"])

p("C14", "Concurrent and nested calls do not disturb each other",
  "Threads that call the library at the same time, sharing the same constant schemas, configuration and source data but with separate outputs, each get the results they would get alone, with no data race. The same holds when client callbacks (memory, log, validation) that run inside one call make further calls into the library.",
  ["schedules", "histories"], "every interleaving of load, save, copy and free in any number of threads; every nesting of calls through callbacks",
  "All tests are single threaded and none re-enters the library from callbacks.",
  [L, S, C, F, U, UT, M], [("no mutable static state: all state in per call contexts", "src/load.c cyaml_ctx_t, src/save.c cyaml_ctx_t, src/copy.c"), ("number formatting into caller buffers", "src/save.c cyaml__get_*")],
  ["ThreadSanitizer reports; per call results against the single threaded ones"])

p("C15", "Logging reports truthfully and never changes results",
  "The log function is called only for messages at or above the configured level, with the configured context and format arguments that match their formats, and never when it is NULL; level and log function change neither result code, data, output nor memory. When an operation fails, the error backtrace names, from innermost to outermost, exactly the mapping fields and sequence entries that lead to the offending item, with their positions in the document when loading.",
  ["inputs", "configurations"], "every operation x level x failing or succeeding input, at any depth",
  "Tests run with fixed levels and check the log text of a few failures; the truth of a backtrace depends on the shape of schema and document.",
  [L, S, C, F, U, "src/util.h"], [("level filter", "src/util.h cyaml__log"), ("backtraces", "src/load.c, src/save.c, src/copy.c cyaml__backtrace")],
  ["each call of the log function"])

p("C16", "Every call gives back the resources it took",
  "On return from any API call, successful or failed, all files it opened are closed and all memory that its YAML parser or emitter allocated by any means has been released, so that any number of calls can be made without exhausting descriptors or memory. The only memory that outlives a call is the data or output handed to the client.",
  ["inputs", "histories", "fault_sequences"], "every API call, with every outcome, in histories of any length",
  "Tests do not watch descriptors and libyaml's memory, and run each failure a fixed number of times.",
  [L, S], [("parser, emitter and event deletion on all exits", "src/load.c cyaml_load_file, cyaml_load_data, cyaml__delete_yaml_event; src/save.c cyaml_save_file, cyaml_save_data")],
  ["process wide malloc and free hooks and lowest free descriptor around each call"])

p("C17", "Validation callbacks see each stored value once and decide acceptance",
  "During a load, each value whose schema has a validation callback and which is given in the document causes exactly one call of it, with the configured context, that schema value and the value just read (for a mapping or sequence: the client's completed structure or entries, after their own values and defaults, and the entry count), in document order of completion, and only after the value passed the schema's own checks. The load goes on if the callback accepts; if it refuses, the load stops and returns the invalid value error, with nothing leaked.",
  ["inputs", "configurations"], "every schema with callbacks on any values x every document x every pattern of refusals",
  "Tests cover one callback per type at the top; calls must be right for every nesting, storage form and refusal position.",
  [L, H], [("callback calls", "src/load.c cyaml__validate_int, cyaml__store_*, cyaml__map_end, cyaml__seq_end")],
  ["arguments and order of callback calls against the reference interpretation of the document"])

p("C18", "NULL values are kept apart from values, as the schema allows",
  "With the NULL pointer flags on a value, an empty scalar (and with the string form of the flag also ~, null, Null and NULL) loads as a NULL pointer, and nothing else does; without them such scalars are treated as ordinary text of the value's type. Saving writes a NULL as null or as an empty scalar according to the flag and refuses a NULL elsewhere except for omitted optional fields and empty sequences; copying and freeing keep and accept NULLs, at any position and for every type.",
  ["inputs", "configurations"], "every value type x NULL flags x position (top level, field, sequence entry) x spelling and quoting",
  "Tests have a handful of NULL cases for a few types and positions.",
  [L, S, C, F], [("NULL recognition", "src/load.c cyaml__string_is_null_ptr"), ("NULL emission", "src/save.c cyaml__write_value"), ("NULL in copies", "src/copy.c"), ("NULL in free", "src/free.c cyaml__free_value")],
  ["pointers after load and copy; output text of save"])

p("C19", "Ignored content has no effect on anything else",
  "Fields of the ignore type, and with the configuration flag unknown keys, may hold any well formed YAML of any size and depth, including repeated keys, anchors and aliases, and loading gives the same result as if they were absent, except that anchors defined there can be used later. Exactly these keys are reported to the log, as warnings or as debug messages according to the configuration, and without the flag an unknown key is rejected.",
  ["inputs", "configurations"], "every schema x document x arbitrary ignored content at any place",
  "Tests ignore a few fixed shapes; skipping must balance for arbitrary content at every place.",
  [L], [("skipping with nesting level", "src/load.c cyaml__consume_ignored_value"), ("unknown keys", "src/load.c cyaml__map_key"), ("reporting", "src/load.c cyaml__log_ignored_key")],
  ["result with and without ignored content; log calls"])

p("C20", "Wrong parameters and malformed schemas give their error codes",
  "Calling any API function with a missing configuration, memory function, schema or data target, with a sequence count argument that does not fit the schema's type, or with a top level schema that is not a pointer, returns the error code documented for it, without touching any memory. A schema with a bad type, bad data or count size, fixed sequence with differing limits, nested variable length sequence, bad string limits or bad bit definitions gives its documented error when the offending schema value is used, never a crash, undefined behaviour or leak.",
  ["inputs", "configurations"], "every combination of wrong arguments; every kind of schema damage at any place of any schema",
  "Tests try each bad argument once against one schema; combinations and placement inside nested schemas are open ended.",
  [L, S, C, F, H], [("parameter checks", "src/load.c cyaml__validate_load_params, src/save.c cyaml__validate_save_params, src/copy.c, src/free.c"), ("schema checks at use", "src/load.c cyaml__store_*, cyaml__stack_push, cyaml__get_bitval_index; src/data.h")],
  ["result codes under sanitizers"])

p("C21", "Results depend only on the arguments",
  "The outcome of any call (result code, loaded or copied values, saved bytes, log messages apart from addresses) is a function of its arguments alone: it does not depend on earlier calls, on the contents of fresh memory, or on whether allocations move. Inputs, configurations, schemas and data passed as constant are never modified.",
  ["histories", "inputs", "configurations"], "every call after every history of calls, with any contents of allocated memory",
  "Tests run each call once in one fresh state; hidden state and uninitialised reads show only across different histories and memory contents.",
  [L, S, C, M, U], [("zeroing of grown memory", "src/mem.c cyaml__realloc, cyaml__alloc"), ("state in per call contexts", "src/load.c, src/save.c, src/copy.c")],
  ["results of the same call under different memory contents and after different histories; checksums of constant inputs"])

p("C22", "Presentation of a document does not matter",
  "Documents that denote the same YAML nodes load to the same result whatever their presentation: block or flow style, indentation, quoting and folding of scalars, comments, blank lines, document markers, directives, tags, line break form, byte order mark and UTF-8 or UTF-16 encoding, and order of mapping fields. Documents after the first in a stream do not change the result.",
  ["inputs", "configurations"], "every document x every equivalent presentation of it x schema",
  "Tests use one presentation for nearly every document.",
  [L], [("reading by events only, styles and tags disregarded", "src/load.c cyaml__load_event, cyaml__read_value"), ("first document only", "src/load.c cyaml__doc_start")],
  ["results of loading equivalent documents"])

p("C23", "Loading a file equals loading its bytes, and read failures are reported",
  "Loading a file gives the same result code and data as loading its contents from memory, for files of any size and content, however the reads are split. If the file cannot be opened or a read fails before the needed data has been read, the load returns an error, never success with partial data, and nothing is leaked.",
  ["inputs", "fault_sequences"], "every file content x every pattern of short reads x a read failing at any byte",
  "Tests load a few healthy files.",
  [L], [("file input", "src/load.c cyaml_load_file"), ("parser errors", "src/load.c cyaml_get_next_event")],
  ["results of cyaml_load_file and cyaml_load_data on the same bytes, with faulty streams"])

p("C24", "No hidden limits on size, width, depth or number",
  "Structures load, save, copy and free correctly at any size: mappings with hundreds of fields, sequences with tens of thousands of entries, strings of megabytes, nesting of hundreds of levels, hundreds of anchors, large enumerations, and outputs far larger than any internal buffer. Nothing is lost, truncated or mixed up at any count, in particular around powers of two and internal growth steps.",
  ["inputs", "configurations"], "every width, depth, length and count",
  "Tests use small data throughout; growth steps and index widths are reached only by larger sizes.",
  [L, S, C, F, D], [("state stack growth", "src/load.c, src/save.c, src/copy.c cyaml__stack_ensure"), ("field bitmap", "src/load.c cyaml__mapping_bitfieid_*"), ("output buffer growth", "src/save.c cyaml__buffer_handler"), ("offset arithmetic", "src/load.c cyaml__seq_entry, src/free.c, src/copy.c, src/save.c")],
  ["values after load, copy and round trip, at swept sizes"])
p("C25", "Schemas made with the public macros describe the structures they name",
  "A schema written with the CYAML_VALUE_* and CYAML_FIELD_* macros loads into, saves from, copies and frees exactly the C members named to the macros: at the member's place, with its width, as a pointer exactly where the macro is one for pointers, with the entry count in the member called for (by name or by the _count suffix), the limits, names, entries and flags given, for every member type and order of members, every macro and every nesting of them.",
  ["inputs", "configurations"], "every client structure x every macro for each member x document or data",
  "The existing tests use some macros once or not at all, with members of common types at few offsets; a wrong offset, width or flag shows only for other structures.",
  [H, "include/cyaml/private.h"], [("schema building macros", "include/cyaml/cyaml.h CYAML_VALUE, CYAML_FIELD, CYAML_FIELD_PTR_COUNT and those made of them; include/cyaml/private.h CYAML__HANDLE_PTR_*, CYAML__SEQUENCE_COUNT_*, CYAML__UNION_MEMBER_*")],
  ["members of C structures after load by a macro schema; output of save"])

p("C26", "The default logger, result descriptions and version tell the truth",
  "The standard log function writes each message it is given, completely, once and in order to the standard error stream, introduced by its level, whatever its length and content, and never affects a call. Every result code has a description of its own that says what it stands for, and any other number gets the one for invalid codes. The version string and the version number, with its release flag, state the same version.",
  ["inputs", "configurations"], "every message, level, result code and version",
  "Tests call the standard logger without looking at its output and ask for two descriptions.",
  [U, H], [("standard logger", "src/util.c cyaml_log"), ("descriptions", "src/util.c cyaml_strerror"), ("version", "src/util.c cyaml_version, cyaml_version_str")],
  ["bytes on standard error; returned strings"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
