"""What each check runs: builds, and engine modes with numbers of cases."""
SAN = ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,function']
BUILDS = {
    'asan': {
        'cc': 'clang', 'cxx': 'clang++',
        'lib': SAN, 'eng': ['-O1', '-g1', '-DHAVE_ASAN'],
        'link': ['-fsanitize=address,undefined'],
    },
    'macros': {
        'cc': 'clang', 'cxx': 'clang++', 'macros': 400,
        'lib': SAN, 'eng': ['-O1', '-g1', '-DHAVE_ASAN'],
        'link': ['-fsanitize=address,undefined'],
    },
    'release': {
        'cc': 'clang', 'cxx': 'clang++', 'devel': 0,
        'lib': SAN, 'eng': ['-O1', '-g1', '-DHAVE_ASAN'],
        'link': ['-fsanitize=address,undefined'],
    },
    'valgrind': {
        'cc': 'clang', 'cxx': 'clang++',
        'lib': ['-O1', '-g', '-fno-omit-frame-pointer'], 'eng': ['-O1', '-g1', '-DHAVE_VALGRIND'],
        'link': [],
        'run': ['valgrind', '-q', '--error-exitcode=21', '--exit-on-first-error=yes', '--track-origins=yes', '--num-callers=20', '--child-silent-after-fork=yes', '--undef-value-errors=yes'],
    },
    'tsan': {
        'cc': 'clang', 'cxx': 'clang++',
        'lib': ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=thread'], 'eng': ['-O1', '-g1'],
        'link': ['-fsanitize=thread'],
    },
}

GEN = ('Case i of a mode is generated from (seed, i): a random schema tree over all value types (client structures laid out from it), '
       'configuration, YAML document and client data. ')
TRUST = ['libyaml (not instrumented) parses and emits correctly; it is also what the reference model reads documents with',
         'the reference model in engine/model.cc and the layout code in engine/schema.cc state the documented meaning',
         'clang\'s sanitizers report what they are built to report']


def A(mode, n):
    return ('asan', mode, n)


def M(mode, n):
    return ('macros', mode, n)


def V(mode, n):
    return ('valgrind', mode, n)


def T(mode, n):
    return ('tsan', mode, n)


PLAN = {
    'C01': {
        'level': 'exploration',
        'rule': GEN + 'Documents are valid, near-valid (edited tokens, damaged bytes, wrong encodings, truncated) or arbitrary bytes; each loads from memory and file and what loads is copied, saved and freed, under ASan+UBSan, guard zones and (a part) memcheck with undefined client memory. '
                      'Non-trivial: the document reached the loader with at least one event; distinct: by hash of schema, document bytes and configuration.',
        'quick': [A('fuzz', 70000), A('conform', 6000), A('scale', 66), A('casecmp', 6000), V('fuzz', 150), V('values', 64), V('copy', 64), V('save', 64), V('nulls', 64)],
        'thorough': [A('fuzz', 3000000), A('conform', 200000), A('scale', 1100), A('casecmp', 200000), V('fuzz', 4000), V('values', 2000), V('copy', 2000), V('save', 2000), V('nulls', 2000), V('oom', 300)],
        'must_see': ['load: Success', 'load: libyaml parser error', 'copy: Success', 'save: Success', 'loads_from_file'],
        'assumptions': ['memory errors inside libyaml show only at its boundary (interceptors) and under memcheck'],
    },
    'C02': {
        'level': 'exploration',
        'rule': GEN + 'Conforming documents are written from a chosen value tree and the loaded structure is read back by its layout and compared with the tree, gaps of the structure included; numbers: edge and random integers and floats of every width in all notations, compared with exact arithmetic. lengths: strings, sequences, keys and names of every length from 0 to some thousands, one after another. Distinct by hash of schema, document and configuration.',
        'quick': [A('values', 90000), A('numbers', 20000), A('conform', 12000), A('defaults', 8000), A('nulls', 5000), A('scale', 220), A('span', 4), A('lengths', 2080)],
        'thorough': [A('values', 3000000), A('numbers', 500000), A('conform', 300000), A('defaults', 200000), A('nulls', 200000), A('scale', 4000), A('span', 40), A('lengths', 20800)],
        'must_see': ['long_numbers', 'lengths', 'values_compared', 'load: Success'],
    },
    'C03': {
        'level': 'exploration',
        'rule': GEN + 'Documents conform, or break one or more rules at chosen places; result code and value are compared with the reference model reading the same document. numbers: limits of storage and of the schema approached from both sides. limits: every limit from 0 to 320 and some up to 4097, of strings and sequences of every form, with the sizes at it and next to it. Distinct by hash of schema, document and configuration.',
        'quick': [A('conform', 60000), A('numbers', 24000), A('values', 12000), A('nulls', 6000), A('scale', 220), A('limits', 2704), A('lengths', 1040)],
        'thorough': [A('conform', 2000000), A('numbers', 600000), A('values', 300000), A('nulls', 200000), A('scale', 4000), A('limits', 81120), A('lengths', 20800)],
        'must_see': ['at_the_limit', 'beyond_the_limit', 'below_the_limit', 'load: Success', 'load: Invalid value', 'load: Invalid key', 'load: Missing required mapping field', 'load: Sequence with too few entries',
                     'load: Sequence with too many entries', 'load: String length too long', 'load: String length too short', 'load: Unexpected event', 'load: YAML alias unsupported', 'load: No anchor found for alias'],
    },
    'C04': {
        'level': 'exploration',
        'rule': GEN + 'Sequences of calls on one schema and configuration, good ones mixed with failing ones of every kind (bad documents, bad data, refused memory, failing files); after each failure the live map of the client allocator must be as before, the outputs untouched, and the good calls must keep giving the first result. Distinct by hash of case and failing call.',
        'quick': [A('failures', 40000), A('oom', 1500), A('iofault', 5000), A('badschema', 5000), A('conform', 5000)],
        'thorough': [A('failures', 1000000), A('oom', 60000), A('iofault', 150000), A('badschema', 150000), A('conform', 150000)],
        'must_see': ['failures', 'repeated_good', 'copy: Memory allocation failed', 'load: Memory allocation failed', 'load: Invalid value'],
    },
    'C05': {
        'level': 'fault_enumeration',
        'rule': GEN + 'For each of load, load from file, copy, save and save to file the allocation requests are counted, then the call is repeated refusing each single request (all of them up to a bound, beyond it a sample) and refusing everything from a request on. Distinct by hash of case, operation and refused request.',
        'quick': [A('oom', 11000), A('scale', 220), V('oom', 24)],
        'thorough': [A('oom', 400000), A('scale', 4000), V('oom', 600)],
        'must_see': ['refusals', 'refusals_on_large', 'exhausted', 'repeated_good', 'copy: Memory allocation failed', 'load: Memory allocation failed', 'load from file: Memory allocation failed', 'save: Memory allocation failed', 'save to file: Memory allocation failed'],
    },
    'C06': {
        'level': 'exploration',
        'rule': GEN + 'Every request to the memory function is checked against a map of live blocks (context, pointer, size), and direct uses of the C allocator by the library are intercepted; blocks that remain after a call must be exactly those reachable from the data through the schema, and free must release exactly them. Distinct by hash of schema, document and operation.',
        'quick': [A('memory', 16000), A('libmem', 16000), A('failures', 6000), A('defaults', 6000), A('scale', 220), A('span', 4), A('lengths', 1040)],
        'thorough': [A('memory', 500000), A('libmem', 400000), A('failures', 150000), A('defaults', 150000), A('scale', 4000), A('span', 40), A('lengths', 10400)],
        'must_see': ['failures_on_large', 'blocks_loaded', 'blocks_freed', 'blocks_copied', 'saves'],
    },
    'C07': {
        'level': 'exploration',
        'rule': GEN + 'Random client data of the schema are saved (memory or file) under random presentation flags and loaded back with the same schema; the value trees must be equal. scalars: edge and random values of each scalar type and width. lengths: strings, sequences, keys and names of every length from 0 to some thousands, one after another. Distinct by hash of schema, data and configuration.',
        'quick': [A('roundtrip', 90000), A('scalars', 30000), A('nulls', 6000), A('scale', 220), A('lengths', 2080)],
        'thorough': [A('roundtrip', 3000000), A('scalars', 600000), A('nulls', 200000), A('scale', 4000), A('lengths', 20800)],
        'must_see': ['lengths', 'round_trips', 'files', 'values_compared', 'save: Success'],
    },
    'C08': {
        'level': 'exploration',
        'rule': GEN + 'Random client data are copied, into a new block or a caller\'s own; the copy must equal the source, share no block with it, leave it byte for byte as it was, and survive alteration and release of it. lengths: strings, sequences, keys and names of every length from 0 to some thousands, one after another. Distinct by hash of schema and data.',
        'quick': [A('copy', 130000), A('nulls', 6000), A('oom', 500), V('copy', 100), A('scale', 220), A('span', 4), A('lengths', 2080)],
        'thorough': [A('copy', 4000000), A('nulls', 200000), A('oom', 20000), V('copy', 4000), A('scale', 4000), A('span', 40), A('lengths', 20800)],
        'must_see': ['lengths', 'copies', 'altered', 'flat_targets', 'blocks_copied'],
    },
    'C09': {
        'level': 'exploration',
        'rule': GEN + 'Random client data are saved under random flags; the output is parsed and its events compared, node by node with styles, with those an independent writer derives from data, schema and flags; file and memory outputs are compared bytewise. Distinct by hash of schema, data and configuration.',
        'quick': [A('save', 80000), A('nulls', 6000), A('scalars', 6000), A('scale', 220), A('span', 4)],
        'thorough': [A('save', 2000000), A('nulls', 200000), A('scalars', 200000), A('scale', 4000), A('span', 40)],
        'must_see': ['saves', 'files_compared', 'nodes_compared'],
    },
    'C10': {
        'level': 'exploration',
        'rule': GEN + 'Documents with anchors and aliases of all kinds are loaded and compared with the model, which replays completed nodes, and with the load of the same document written out in full. Distinct by hash of schema, document and configuration.',
        'quick': [A('anchors', 80000), A('conform', 6000), A('ignored', 6000), A('scale', 154)],
        'thorough': [A('anchors', 2500000), A('conform', 200000), A('ignored', 200000), A('scale', 1100)],
        'must_see': ['aliases', 'compared_with_full_text', 'replayed_events', 'load: No anchor found for alias', 'load: YAML alias unsupported'],
    },
    'C11': {
        'level': 'exploration',
        'rule': GEN + 'Schemas are rich in optional fields with defaults of every type; documents leave out a random part of them. Loaded structures are compared with the model; blocks are checked not to be shared with the schema or each other. Distinct by hash of schema, document and configuration.',
        'quick': [A('defaults', 120000), A('values', 15000), A('memory', 2500), A('scale', 154)],
        'thorough': [A('defaults', 4000000), A('values', 300000), A('memory', 100000), A('scale', 3000)],
        'must_see': ['absent_fields', 'defaults_applied', 'aliased'],
    },
    'C12': {
        'level': 'exploration',
        'rule': 'fold: every letter of the four blocks (and neighbours) in every name table, against a table of our own of which letters fold together, enumerated completely by case number; planes: every character of Unicode (in a table with its block, with U+FFFD and with characters one bit away) against all of that table, likewise complete; names: random and adversarial names as keys, enumeration values, flags and bit fields under both sensitivities; casecmp: the comparison itself on valid and broken UTF-8, for agreement, symmetry, reflexivity and transitivity, with guard pages behind the strings. Distinct by hash of the strings and table.',
        'quick': [A('fold', 705), A('planes', 2176), A('names', 40000), A('casecmp', 60000), A('values', 8000), A('conform', 6000)],
        'thorough': [A('fold', 705), A('planes', 2176), A('names', 1500000), A('casecmp', 3000000), A('values', 300000), A('conform', 200000)],
        'must_see': ['matched', 'matched_in_other_case', 'unmatched', 'pairs_of_letters', 'pairs_of_characters'],
        'assumptions': ['cyaml_utf8_casecmp is tested directly where the library still has it; otherwise only through loads'],
    },
    'C13': {
        'level': 'fault_enumeration',
        'rule': GEN + 'Each saved document goes to destinations that fail: streams refusing the write at a chosen byte (every byte for small documents, sampled otherwise), at flush or at close, a full device, a file size limit, unwritable paths. Distinct by hash of case and fault.',
        'quick': [A('iofault', 50000)],
        'thorough': [A('iofault', 1500000)],
        'must_see': ['faulted_saves', 'close_errors', 'full_device', 'size_limited', 'bad_paths', 'good_files', 'replaced_files', 'stream_errors'],
    },
    'C14': {
        'level': 'exploration',
        'rule': GEN + 'threads: 2-8 threads released together run loads, saves, copies and frees on shared schema, configuration and source data, under TSan, with random yields inside the callbacks; each result must equal the one obtained alone. nested: the callbacks make complete calls of their own. Distinct: interleavings of callbacks of the threads (hash of who passed before whom, taken without synchronising), counted only where threads did alternate; for nested, by result.',
        'quick': [T('threads', 2600), A('nested', 9000)],
        'thorough': [T('threads', 100000), A('nested', 300000)],
        'must_see': ['cases_with_calls_at_once', 'switches_between_threads', 'yields_inside_calls', 'nested_in_memory_function', 'nested_in_log_function', 'nested_in_validation'],
        'assumptions': ['libyaml is not instrumented; races inside it would show only where it calls intercepted functions'],
    },
    'C15': {
        'level': 'exploration',
        'rule': GEN + 'The same calls are made with the log function off and at every level; results, outputs and allocations must be the same, every message must be at an allowed level with the configured context, and on failure the backtrace must name the path the model computes, with positions taken from libyaml. Distinct by hash of case, operation and level.',
        'quick': [A('logs', 24000), A('ignored', 4000)],
        'thorough': [A('logs', 700000), A('ignored', 150000)],
        'must_see': ['messages', 'load_backtraces', 'save_backtraces', 'copy_backtraces', 'backtrace_lines', 'far_down', 'far_off'],
    },
    'C16': {
        'level': 'exploration',
        'rule': GEN + 'Calls of every kind, succeeding and failing, are made in sequence; after each, open descriptors, open streams and bytes allocated by any means (sanitizer malloc hooks, which see libyaml too) must be back at their level except for the data handed out. Distinct by hash of case and call.',
        'quick': [A('resources', 20000), A('iofault', 8000), A('libmem', 5000), A('params', 5000)],
        'thorough': [A('resources', 600000), A('iofault', 200000), A('libmem', 150000), A('params', 100000)],
        'must_see': ['calls', 'file_calls', 'failed_calls'],
    },
    'C17': {
        'level': 'exploration',
        'rule': GEN + 'Validation callbacks on values of every type record their calls, with a snapshot of the value, and refuse by plan; the record is compared with the model\'s. Distinct by hash of schema, document and configuration.',
        'quick': [A('validators', 80000), A('failures', 4000)],
        'thorough': [A('validators', 2500000), A('failures', 150000)],
        'must_see': ['callbacks', 'rejections', 'loads_with_callbacks'],
    },
    'C18': {
        'level': 'exploration',
        'rule': GEN + 'Values with NULL flags at any position; documents with all spellings of NULL and near misses; data with NULLs saved, copied and freed. Distinct by hash of schema, document or data, and configuration.',
        'quick': [A('nulls', 90000), A('copy', 10000), A('save', 8000), A('roundtrip', 8000)],
        'thorough': [A('nulls', 3000000), A('copy', 300000), A('save', 200000), A('roundtrip', 200000)],
        'must_see': ['nulls_loaded', 'nulls_saved', 'nulls_copied', 'refused', 'copies_refused'],
    },
    'C19': {
        'level': 'exploration',
        'rule': GEN + 'Documents with ignored fields and unknown keys holding arbitrary YAML; the load is compared with the model, with the load of the document without them, and the keys reported in the log with those present. Distinct by hash of schema, document and configuration.',
        'quick': [A('ignored', 50000), A('conform', 8000), A('scale', 66)],
        'thorough': [A('ignored', 1500000), A('conform', 200000), A('scale', 1100)],
        'must_see': ['ignored_values', 'ignored_deep', 'compared_without_ignored'],
    },
    'C20': {
        'level': 'exploration',
        'rule': 'params: each API function with each combination of missing and contradictory arguments, in which nothing may be allocated, opened or touched; badschema: a random schema damaged at one place, used by load, save and copy; the code must be the documented one when the damaged part is used. Distinct by hash of call and damage.',
        'quick': [A('params', 25000), A('badschema', 60000)],
        'thorough': [A('params', 800000), A('badschema', 2000000)],
        'must_see': ['calls'],
    },
    'C21': {
        'level': 'exploration',
        'rule': GEN + 'Each call is repeated with fresh memory of other contents, moving or staying reallocation, after other calls, at other stack contents; results, values, outputs and log text must be the same; schema, configuration, input and source data lie in memory that is write protected or compared. Distinct by hash of case and repetition.',
        'quick': [A('determinism', 10000), A('copy', 8000), V('values', 64), V('copy', 48), V('save', 48)],
        'thorough': [A('determinism', 400000), A('copy', 200000), V('values', 2000), V('copy', 2000), V('save', 2000)],
        'must_see': ['repeats_compared', 'log_lines_compared'],
    },
    'C22': {
        'level': 'exploration',
        'rule': GEN + 'One node tree is written in many presentations (styles, quoting, comments, markers, directives, tags, line breaks, BOM, UTF-16, field order, further documents); all must load to the result of the first. Distinct by hash of schema, document and presentation.',
        'quick': [A('presentation', 28000)],
        'thorough': [A('presentation', 800000)],
        'must_see': ['documents_with_several_forms', 'reordered', 'load: Success'],
    },
    'C23': {
        'level': 'exploration',
        'rule': GEN + 'Documents are loaded from memory, from a file, from a pipe, through streams that split reads at random, and through streams that fail at a chosen byte; results must agree, and errors be reported. Distinct by hash of schema and document.',
        'quick': [A('files', 18000), A('failures', 3000)],
        'thorough': [A('files', 500000), A('failures', 100000)],
        'must_see': ['files_loaded', 'split_loads', 'pipes', 'read_errors_reported', 'unreadable_files'],
    },
    'C24': {
        'level': 'exploration',
        'rule': 'Each case takes one dimension (fields, entries, string bytes, levels, anchors, names, flags, ignored items, records) at a size near a power of two or random up to a bound, loads, checks every element, saves, loads the output, copies, and frees. lengths: strings, sequences, keys and names of every length from 0 to some thousands, one after another. Distinct by hash of dimension, size and layout.',
        'quick': [A('scale', 2200), A('span', 12), A('lengths', 2080)],
        'thorough': [A('scale', 30000), A('span', 120), A('lengths', 41600)],
        'must_see': ['lengths', 'parts_of_a_bitfield', 'aliases_of_levels', 'fields_of_a_mapping', 'entries_of_a_sequence', 'entries_of_a_top_level_sequence', 'bytes_of_a_string', 'levels', 'anchors', 'names_of_an_enumeration', 'flags', 'ignored_items', 'records', 'entries_of_an_anchored_sequence', 'entries_of_a_default', 'spans', 'long_texts_saved', 'long_inputs', 'failures_on_large', 'refusals_on_large'],
    },
    'C25': {
        'level': 'exploration',
        'rule': 'From the seed, client structures are written in C with members of every kind and width in random order, and for each a schema by the public macros (all of them, specific and generic) and one by plain initialisers with offsetof and sizeof. Random conforming and broken documents are loaded, and random data saved, copied and freed, by the macros\' schema; the reference model and the layout of the plain one decide. Distinct by hash of document or output and schema.',
        'quick': [M('macros', 60000)],
        'thorough': [M('macros', 3000000)],
        'must_see': ['loaded', 'saved', 'copied'],
    },
    'C26': {
        'level': 'exploration',
        'rule': 'deflog: the standard log function is given random messages, and used in random loads; what arrives on standard error is compared with the messages a recording function got for the same. info: descriptions of valid and invalid result codes, and version number against version string, of development and release builds. Distinct by hash of output, or code.',
        'quick': [A('deflog', 24000), A('info', 4000), ('release', 'info', 4000)],
        'thorough': [A('deflog', 600000), A('info', 100000), ('release', 'info', 100000)],
        'must_see': ['messages_made', 'messages_of_loads', 'codes', 'development_version', 'release_version'],
    },
}
for _p in PLAN.values():
    _p['assumptions'] = TRUST + _p.get('assumptions', [])
