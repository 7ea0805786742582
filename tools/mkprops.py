#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Edit the list here, then run this."""
import json, os

LIB = 'lib/src/pbtools.c'
HDR = 'lib/include/pbtools.h'
GEN = 'pbtools/c_source/__init__.py'
PAR = 'pbtools/parser.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))


prop('C01', 'Encoding gives the canonical proto3 wire form of the message',
     'For every message content built through the generated C API, <message>_encode() into a buffer that is large enough returns exactly the number of bytes it produced, and those bytes are valid proto3 wire data that a conforming proto3 parser reads back as exactly that content. '
     'The form is canonical: fields holding their proto3 default, empty repeated fields and unset sub-messages are omitted, present optional fields and the selected oneof field are always emitted (even when they hold the default value), repeated numeric fields are one packed record, and every varint, tag and length prefix is minimal. '
     'Encoding does not alter the message.',
     ['inputs', 'programs'],
     'All field types, cardinalities and field numbers, all field values (every 7-bit varint boundary, sign and width), all combinations of set and unset fields, all sub-message nestings.',
     'Tests encode one or two values per type and compare with one literal byte string; they never combine fields systematically, never cross most varint/length boundaries per type and never check emptiness rules for every type and cardinality.',
     [LIB, GEN],
     [('reverse encoder', LIB + ': encoder_write*, pbtools_encoder_write_*'),
      ('generated encode_inner', GEN + ': generate_message_encode_body, generate_oneof_encode_definitions'),
      ('length back-patching', LIB + ': encoder_write_repeated, pbtools_encode_repeated_inner, pbtools_encoder_sub_message_encode')],
     [('encoder pos', 'next free byte, moving towards the buffer start', LIB + ': struct pbtools_encoder_t')],
     ['<message>_encode() return value and output buffer'])

prop('C02', 'Encode followed by decode is the identity on message contents',
     'For every message content, decoding what <message>_encode() produced into a fresh message succeeds, consumes all bytes, and gives a message with exactly the same content: the same scalar values bit for bit, strings, bytes, enum numbers, optional presence, oneof selection, repeated order and length, and sub-message presence. '
     'Encoding the decoded message again gives the identical bytes.',
     ['inputs', 'programs'],
     'All contents as in C01, for every message type that the generator can produce.',
     'Tests round-trip a handful of values per type; floats, bools, enums, bytes and strings inside oneofs, optionals, repeated fields, maps and nested messages are mostly not round-tripped, and never in combination.',
     [LIB, GEN],
     [('paired write/read functions per type', LIB), ('generated encode_inner/decode_inner', GEN)],
     [], ['<message>_decode() return value and the message struct'])

prop('C03', 'Any valid proto3 encoding decodes to its proto3 meaning',
     'Decoding well-formed proto3 wire data gives success (the return value is the input size) and exactly the content that proto3 assigns to it, whatever legal form the data has: fields in any order, non-minimal varints, over-wide integers truncated as by a C cast, packed and unpacked repeated numeric fields in any mixture of segments, unknown fields of any wire type interleaved anywhere, the last occurrence winning for scalars and within a oneof, missing fields giving defaults. '
     'Occurrences of a repeated field are concatenated in wire order.',
     ['inputs'],
     'All record sequences over an alphabet of known and unknown records for every field type and cardinality, including empty segments and duplicates.',
     'Tests decode a few hand-written byte strings for int32, fixed32, fixed64 and one nested message; other types, other mixtures and interleavings are never tried.',
     [LIB, GEN],
     [('two-pass repeated decoding', LIB + ': repeated_info_decode_*, decoder_decode_repeated, pbtools_decode_repeated_inner'),
      ('skip of unknown fields', LIB + ': pbtools_decoder_skip_field'),
      ('generated decode switch', GEN + ': MESSAGE_DEFINITIONS_FMT')],
     [('repeated_info', 'start position, count and tag of a repeated field between the passes', LIB + ': struct pbtools_repeated_info_t')],
     ['<message>_decode() return value and the message struct'])

prop('C04', 'Malformed input is rejected with an error that names a real defect',
     'Decoding input that is not well formed returns a negative value, and its magnitude is the documented error code of a defect that is really present in the input: out of data for truncation, varint overflow, bad field number 0, bad wire type (unknown wire types, groups, or a wire type that a known field does not accept), length-delimited overflow, seek overflow, or out of memory for a length that cannot be stored. '
     'An error anywhere, including inside sub-messages, packed payloads and oneofs, is never dropped, and well-formed input of up to INT_MAX bytes (what the return value can express; larger input is refused) is never rejected when the workspace is large enough.',
     ['inputs'],
     'All short byte strings, all truncations and single-byte corruptions of valid encodings, and all malformed record alphabets at every nesting level and field type.',
     'Tests contain about fifteen hand-picked malformed inputs; the two-pass decoder has an error path per type and nesting level and most of them are never reached.',
     [LIB],
     [('decoder_abort keeps the first error', LIB + ': decoder_abort, decoder_get_result'),
      ('propagation from slices', LIB + ': decoder_seek, decoder_decode_repeated, pbtools_decode_repeated_inner')],
     [('decoder size/pos', 'negative error code once aborted', LIB + ': struct pbtools_decoder_t')],
     ['<message>_decode() return value'])

prop('C05', 'Decoding arbitrary bytes is memory safe and terminates',
     'For every byte string of any size and every workspace size (and a stack that suffices for the nesting depth of the input), <message>_decode() terminates and touches no memory outside the input buffer (which it only reads) and the workspace. '
     'When it succeeds, every pointer reachable from the message stays inside the workspace (or refers to a constant empty string), every string is NUL-terminated inside it, and the message can be read in full and encoded again safely.',
     ['inputs', 'configurations'],
     'All byte strings up to a bound over full or reduced alphabets, all structured token sequences, all workspace sizes and alignments.',
     'The tests run fixed inputs in ample workspaces; the fuzzer is not part of the suite, samples randomly and uses one workspace size.',
     [LIB],
     [('bounds check on every read', LIB + ': decoder_get, decoder_read, decoder_seek, decoder_init_slice'),
      ('bump allocator', LIB + ': heap_alloc')],
     [('heap', 'bump pointer over the workspace', LIB + ': struct pbtools_heap_t')],
     ['input buffer, workspace and their surroundings'])

prop('C06', 'Workspace exhaustion is always reported, and is all or nothing',
     'For any operation sequence there is a workspace size from which it succeeds with the same result as with an unlimited workspace, and below which it reports failure: <message>_new() returns NULL, an _alloc() function returns -1, <message>_decode() returns out of memory. '
     'A decode never reports success with data missing, and success never turns into failure when the workspace grows.',
     ['inputs', 'configurations'],
     'Every workspace size from zero to more than needed, every workspace alignment, for decodes and builds that use every field type, nesting and repetition.',
     'Tests try two or three too-small workspaces for one message each; they do not visit every allocation site of a decode.',
     [LIB, GEN],
     [('heap_alloc failure paths', LIB + ': decoder_heap_alloc, pbtools_alloc_repeated, pbtools_sub_message_alloc, pbtools_message_new')],
     [('heap', 'bump pointer over the workspace', LIB + ': struct pbtools_heap_t')],
     ['return values of new/alloc/decode; message content'])

prop('C07', 'Encoding never exceeds its buffer and fails exactly when it cannot fit',
     '<message>_encode() into a buffer of any size writes no byte outside that buffer. '
     'It succeeds exactly when the encoded message fits (a buffer of exactly the encoded size suffices, and an empty message fits a buffer of size zero) and otherwise returns the negated encode-buffer-full code; the produced bytes do not depend on the buffer size.',
     ['inputs', 'configurations'],
     'Every buffer size from zero to more than the encoded size, for contents using every field type, cardinality and nesting.',
     'One test encodes one string into one too-small buffer.',
     [LIB],
     [('encoder_write bounds check', LIB + ': encoder_write, encoder_abort, encoder_get_result')],
     [('encoder pos', 'next free byte or negative error', LIB + ': struct pbtools_encoder_t')],
     ['<message>_encode() return value, output buffer and its surroundings'])

prop('C08', 'Workspace objects are in bounds, disjoint, aligned and default-initialised',
     'Every object that new, _alloc() or a decode hands out lies entirely inside the workspace that was given, is aligned for its type, overlaps no other live object, and starts with proto3 default contents (zero, empty, not present, no oneof selected), whatever the workspace held before and wherever it starts. '
     'Allocation requests that do not fit, including huge and negative lengths, are refused with -1 and leave the message as it was.',
     ['histories', 'configurations'],
     'All sequences of allocation operations up to a depth, with lengths from an alphabet that includes 0, 1, large values, 2^29 multiples, INT_MAX and negative values, over workspace sizes, alignments and previous contents.',
     'Tests allocate small fixed lengths in order from a fresh static workspace, and never look at addresses.',
     [LIB, GEN],
     [('heap_new/heap_alloc', LIB), ('generated _init functions', GEN + ': generate_message_members_init')],
     [('heap', 'bump pointer over the workspace', LIB + ': struct pbtools_heap_t')],
     ['addresses and contents of the handed-out objects'])

prop('C09', 'Every API operation history leaves the message as the plain model predicts',
     'For every history of API operations on a message (new, assigning fields, allocating sub-messages and repeated fields, selecting oneof fields, encoding at any point, decoding into a message) the contents and every encode result are those of a plain record to which the same operations are applied. '
     'Encoding is repeatable and side-effect free, selecting a oneof field deselects the others and resets the value, decoding into a message that already has contents overwrites scalars that occur in the data and keeps those that do not, and operations on one message never change another one.',
     ['histories'],
     'All operation sequences up to a depth on one and two live messages.',
     'Tests run straight-line histories: build, encode once, decode once.',
     [LIB, GEN],
     [('generated init/alloc functions', GEN + ': INIT_ONEOF_FIELD_FMT, ALLOC_ONEOF_FIELD_FMT'), ('message_base heap pointer', LIB + ': pbtools_message_new')],
     [], ['message struct and encode output after each step'])

prop('C10', 'Messages with separate workspaces may be used from threads concurrently',
     'Threads that each use their own workspace, message and buffers can create, fill, encode and decode messages, of the same or different types, concurrently without any synchronisation: there are no data races, and each thread gets exactly the results that it gets alone.',
     ['schedules'],
     'All interleavings of the memory accesses of two or three threads, up to a preemption bound.',
     'No test uses threads.',
     [LIB, GEN],
     [('no mutable static storage', LIB), ('all state in caller-provided memory', HDR)],
     [], ['per-thread results; conflicting memory accesses'])

prop('C11', 'Different schema versions interoperate as proto3 promises',
     'Data encoded with one version of a message is decoded correctly by another version in which fields have been added, removed, reordered, moved into a new oneof, or changed between wire-compatible types (integers and bool and enum, string and bytes, fixed and sfixed, singular and repeated reader): fields known to both keep their value, fields unknown to the reader are skipped, and fields unknown to the writer get their default. ',
     ['programs', 'inputs'],
     'All pairs of field subsets and orders over a field universe, all compatible type changes, over boundary values.',
     'Tests decode three versions of one two-field message.',
     [LIB, GEN],
     [('skip of unknown fields', LIB + ': pbtools_decoder_skip_field'), ('generated decode switch', GEN)],
     [], ['<message>_decode() of another version'])

prop('C12', 'A map field is wire-identical to its repeated key/value entry message',
     'For every key type and every value type, a map<K, V> field encodes and decodes exactly like the repeated field of an entry message with key = 1 and value = 2 that proto3 defines for it, including default keys and values, missing keys or values, duplicate keys, and entries with unknown fields.',
     ['inputs', 'programs'],
     'All 12 proto3 key types times all value types (scalars, enum, message), entries over value alphabets, and all short record sequences for the entries.',
     'Tests cover a few key and value types with one entry each.',
     [PAR, GEN, LIB],
     [('map desugaring', PAR + ': Message._load_map')],
     [], ['encode output and decoded struct of the map and of the explicit entry message'])

prop('C13', 'Every int maps to the right error string',
     'For every int value, pbtools_error_code_to_string() returns a valid constant string without undefined behaviour: "Ok" for 0, the fixed description of a documented error code whether it is given positive or negated, and "Unknown error" for every other value.',
     ['inputs'],
     'All 2^32 int values.',
     'The test checks ten values.',
     [LIB],
     [('switch over the absolute value', LIB + ': pbtools_error_code_to_string')],
     [], ['returned string'])

prop('C14', 'Behaviour does not depend on compiler, optimisation or build configuration',
     'The library and the generated code give the same results for the same calls when built with gcc or clang at any optimisation level, as C or with the headers included from C++, with signed or unsigned plain char, and, for messages without float and double, with PBTOOLS_CONFIG_FLOAT set to 0.',
     ['configurations', 'inputs'],
     'All combinations of the listed build configurations, each over the same exhaustive set of encode and decode cases.',
     'Tests run one compiler with one set of flags.',
     [LIB, HDR, GEN],
     [('only portable C', LIB), ('PBTOOLS_CONFIG_FLOAT', HDR)],
     [], ['digest of all results per configuration'])

prop('C15', 'Memory comes from the workspace only, stack and work are bounded by the data',
     'Creating, filling, encoding and decoding messages takes memory from the given workspace and the stack only: no heap allocation, no input or output, no termination of the process, no other call of the system, on any path, including every kind of failure. The stack that encode and decode need depends on the nesting depth of the contents (linearly) and not on the size of values or the number of items, and the work of every call is at most proportional to the amount of data (the contents, the bytes of the input, the nesting depth).',
     ['inputs', 'configurations'],
     'All contents and record sequences up to a bound for calls of the system; for each field of each message, each operation, and each pair of records, sizes of every order of magnitude for stack and work.',
     'Tests look at results, not at what was used to get them.',
     [LIB, GEN],
     [('bump allocator', LIB + ': heap_alloc'), ('two passes over repeated fields', LIB + ': repeated_info, decoder_decode_repeated'), ('encoding from the end', LIB + ': encoder_write')],
     [('heap', 'the only source of memory', LIB + ': struct pbtools_heap_t')], ['calls of functions outside the library', 'stack high-water mark', 'number of basic blocks executed and bytes moved'])

prop('P01', 'The parser returns exactly what the proto file declares',
     'For every file in the supported proto3 language, parse_file() returns a model with exactly the declared package, imports, options with their values, messages with their nested messages, enums, oneofs, maps and fields (type, number, repeated, optional, in declaration order), enums with their constants, and services with their rpcs, request and response types and streaming flags. '
     'No declaration is lost, duplicated, renamed or attached to another scope, wherever keywords, reserved statements, field options or empty statements occur.',
     ['programs', 'inputs'],
     'All proto files built from a grammar of declarations up to a bound, including keywords used as names, numbers in decimal, octal and hexadecimal form, and every order of top-level statements.',
     'Tests parse about thirty fixed files.',
     [PAR],
     [('grammar', PAR + ': Parser.grammar'), ('tree loading', PAR + ': Message, Enum, Oneof, Service, Option')],
     [], ['the Proto object'])

prop('P02', 'Comments, white space and layout never change the result',
     'Inserting or removing comments (single-line and multi-line, whatever they contain) and white space (blanks, tabs, newlines, CRLF) between any two tokens of a proto file changes neither the parse result nor the generated code, and text inside string literals is never taken for a comment. '
     'A syntax error is reported at the line and column where it is, whatever comments precede it.',
     ['inputs'],
     'Every gap between tokens of a set of files covering the grammar, times an alphabet of fillers, up to two insertions at once.',
     'Tests parse one file with comments in a few places.',
     [PAR],
     [('comment removal', PAR + ': ignore_comments'), ('tokenizer', PAR + ': Parser.token_specs')],
     [], ['the Proto object, generated files, error message'])

prop('P03', 'Type names resolve to the declaration that proto3 scoping designates',
     'Every type reference in a field, oneof field or map value (a simple name, a name nested in another message, or a package-qualified name) resolves to the message or enum that proto3 scoping rules designate: the innermost enclosing scope that declares it first, then the package, then imported files; and it is treated as enum or message accordingly. '
     'References that designate nothing are rejected with an error that names the type.',
     ['programs'],
     'All placements of one or two equally named types over the scopes of a small nesting and an imported file, times all reference sites and qualification forms.',
     'Tests cover one or two arrangements of unambiguous names.',
     [PAR],
     [('scope walk', PAR + ': Proto.resolve_field_type, is_field_enum, lookup_type')],
     [('messages_stack', 'enclosing messages during the walk', PAR + ': Proto')],
     ['field.full_type, field.type_kind; C type of the generated member'])

prop('P04', 'Invalid proto files are rejected and leave no output behind',
     'For a file that is not in the proto3 language (any token missing, added or replaced so that the grammar is left; unterminated comments or strings), that references an undefined type in a field, oneof field or map value, or that imports a file which cannot be found or is not in the language, pbtools prints an error on stderr, exits with a non-zero status, and writes no generated file for it. '
     'It never prints a Python traceback unless --debug is given.',
     ['inputs'],
     'All single-token deletions, duplications and replacements over a set of files covering the grammar, and all undefined-reference sites.',
     'Tests cover one missing type and two comment errors.',
     [PAR, 'pbtools/__init__.py', GEN],
     [('parse before write', GEN + ': generate_files'), ('error reporting', 'pbtools/__init__.py: _main')],
     [], ['exit status, stderr, output directory'])

prop('P05', 'Generated C always compiles cleanly, whatever the declaration order',
     'For every supported proto file, the generated .h and .c compile without errors or warnings under the flags of the project (also when the header is included from C++ or before or after other generated headers), for every order of declarations and every reference graph between messages and enums, including self-reference, mutual recursion, nested types used from other messages, and several imported files.',
     ['programs'],
     'All reference graphs over three message types (singular, repeated, oneof, map, nested) times all declaration orders, plus enums at every nesting level.',
     'Tests compile about thirty fixed files; ordering.proto has one order.',
     [GEN, PAR],
     [('sorting by usage', PAR + ': Proto.sort_messages_by_usage'), ('header layout', GEN + ': generate_types')],
     [], ['compiler exit status and diagnostics'])

prop('P06', 'The generated codec implements exactly the schema it was generated from',
     'For every supported schema, each field of the generated code uses exactly the declared field number, type, cardinality and oneof, each field is stored in its own member, and enum constants have the declared numbers: values written through a member appear on the wire under that field and no other, and are read back into it.',
     ['programs', 'inputs'],
     'All single-field schemas over type, cardinality and field number classes, all pairs of field kinds in one message, all nesting forms, name styles and enum numberings up to a bound.',
     'Tests cover one schema per scalar type and a few combinations.',
     [GEN, PAR],
     [('templates per field kind', GEN + ': ENCODE_*_FMT, DECODE_*_FMT, *_FINALIZER_FMT'), ('name mangling', PAR + ': camel_to_snake_case')],
     [], ['wire data of the generated encoder and decoder'])

prop('P07', 'Generation is deterministic and independent of history and environment',
     'Generating code for a file gives byte-identical output every time: regardless of the other files generated before it or in the same invocation, their order, hash randomisation, the current directory, how the input path is spelled, and what the output directory contains.',
     ['histories', 'configurations'],
     'All orders and subsets of a set of input files in one process and in separate processes, several hash seeds, directories and path spellings.',
     'Tests generate each file once in one environment.',
     [GEN, PAR, 'pbtools/subparsers/generate_c_source.py'],
     [('no module-level state', PAR), ('generate_files loop', GEN)],
     [], ['generated files'])

prop('P08', 'Imports are found in import-path order and link up across files',
     'An imported file is taken from the first -I directory that has it, and otherwise from the current directory (an input file is read from where it is named), and the parse result gives the paths of the files that were read; its types are usable in the importing file, and the code generated from importing and imported files includes the right headers, compiles and links together, and encodes and decodes imported message and enum types correctly.',
     ['configurations', 'programs'],
     'All placements of equally named files over import directories and the current directory times all -I orders, and all import graphs over three files.',
     'Tests have one import directory and one arrangement.',
     [PAR, GEN],
     [('find_file', PAR), ('generate_includes', GEN)],
     [], ['which file was used; compiled program'])

prop('P09', 'A failing file operation is reported and never yields a bad file silently',
     'If a file operation that generation needs fails (creating the output directory, opening or reading an input, opening, writing or closing an output), pbtools exits with a non-zero status and an error message, whatever was in the output directory before. '
     'If it exits with status zero, every output file exists and is complete, also when operations were interrupted or transferred only a part of the data; and after any failure or kill, a later run without faults gives the complete output.',
     ['fault_sequences'],
     'A fault at each file operation of a run, for each kind of fault, and pairs of faults.',
     'No test injects faults.',
     [GEN, 'pbtools/__init__.py', PAR],
     [('exceptions propagate to _main', 'pbtools/__init__.py')],
     [], ['exit status, stderr, output directory'])

prop('P10', 'The --enums-upper-case option changes enum constant names and nothing else',
     'For every proto file, generating with --enums-upper-case gives the same code as without it except that the names of the constants of proto enums are in upper case: the numbers, types, field names, functions and wire format are the same, and the code compiles.',
     ['programs', 'configurations'],
     'All schemas of a bounded family with enums at every level and used in every cardinality.',
     'One test compares the output for one file.',
     [GEN, 'pbtools/subparsers/generate_c_source.py'],
     [('generate_enum_members', GEN)],
     [], ['diff of the generated files'])

prop('P11', 'Every command line does what it says, and touches nothing else',
     'For every spelling and order of its options, a generate command reads the files it names (and those they import) and writes, for each, exactly the files named after it (its base name without extension, in snake case) into the output directory, which is the current one by default and is created with its parents by generate_c_source, with the content that generate_files() gives for the same arguments. It is silent, exits with status 0, and creates, changes or removes no other file, whatever is there already. '
     '--help and --version print to standard output and exit with status 0. Every other command line (no file, unknown option or command, missing or superfluous argument) is rejected with a message on standard error and a non-zero status, and no file is touched.',
     ['inputs', 'configurations'],
     'All command lines with a bounded number of deviations from a plain one over options, spellings, order, directories and files; all insertions of a wrong option; all file names up to a length over the classes of characters.',
     'Tests run one form of command line per file.',
     ['pbtools/__init__.py', GEN, 'pbtools/subparsers/generate_c_source.py'],
     [('argument parser', 'pbtools/__init__.py: _main'), ('sub-command options', 'pbtools/subparsers/generate_c_source.py'), ('generate_files', GEN)],
     [], ['exit status, output, and all files before and after'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
