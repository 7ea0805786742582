S = 'stateless model checking of the real code: '
REF = ' Trusted: the reference encoder/decoder in mc/model.c, gcc, ASan/UBSan.'
NOTES = {
 'C01': (S + 'deviation-bounded exhaustive enumeration of message contents, compared with a reference wire model',
         'Every content with at most 2 (quick) or 3 (thorough) non-default choices over boundary alphabets for every type x cardinality, all windows of value bits, all lengths in stated ranges, payloads and items of every order of magnitude (2^k and neighbours), all nesting depths to 80.' + REF),
 'C02': (S + 'deviation-bounded exhaustive enumeration of message contents, encode-decode-encode',
         'Same space as C01; the decoded struct is compared member by member with the content that was built.' + REF),
 'C03': (S + 'exhaustive enumeration of record sequences up to a length, against a reference decoder',
         'All sequences of well-formed records over a per-message alphabet within the stated length; payloads of every order of magnitude.' + REF),
 'C04': (S + 'exhaustive enumeration of malformed inputs (records, truncations, corruptions, raw bytes), against the set of defects found by a reference decoder',
         'Any of the defects really present is accepted as the reported one.' + REF),
 'C05': (S + 'exhaustive enumeration of inputs and workspaces under ASan with guarded buffers and a pointer walk',
         'Memory safety is observed by ASan/UBSan on every execution; stack depth is assumed sufficient.'),
 'C06': (S + 'fault enumeration: every workspace size for each operation of an enumerated set',
         'Every allocation site fails in some enumerated size.' + REF),
 'C07': (S + 'fault enumeration: every buffer size for each message of an enumerated set',
         'Every write of the encoder hits the end of the buffer in some enumerated size.' + REF),
 'C08': (S + 'exhaustive allocation histories up to a depth over length, workspace size, alignment and fill alphabets',
         'After each step all reachable objects are walked.' + REF),
 'C09': (S + 'exhaustive API histories up to a depth against a plain record, on two messages',
         'After each step both messages are compared with their records.' + REF),
 'C10': (S + 'all thread interleavings up to a preemption bound, every memory access of the code under test a scheduling point, with race detection',
         'Two and three threads; 1-2 preemptions in the quick tier, up to 3 in the thorough tier; sequentially consistent interleavings, data races are detected from conflicting unsynchronised accesses per byte in every execution.' + REF),
 'C11': (S + 'exhaustive enumeration of (writer version, reader version, contents) within families of schema versions',
         'Every ordered pair of versions in 13 families (type changes x cardinality, field subsets x order, all assignments of four fields to oneofs), all contents with a bounded number of non-default choices over boundary alphabets, large payloads and item counts; oracle is a content transfer function that does not look at the wire.' + REF),
 'C12': (S + 'exhaustive enumeration of contents and record sequences on a map and on its entry message, compared with each other and with a reference model',
         'All 12 key types x 17 value types; large maps, keys and values.' + REF),
 'C13': ('exhaustive enumeration of all 2^32 arguments of the real function', 'Complete.'),
 'C14': (S + 'exhaustive enumeration of one bounded set of behaviours in every build variant, compared by per-behaviour digests',
         'gcc and clang x -O0..-Os x signed/unsigned char, headers from C and C++, float support off; 64-bit x86 only (no 32-bit C library here). Trusted: the harness objects, built once with gcc.'),
 'C15': (S + 'exhaustive enumeration of contents, record sequences and sizes of every order of magnitude, with calls of the system intercepted, the stack painted and basic blocks counted',
         'Every function that the code refers to outside itself and that is not pure is replaced by a stub that reports the call; all contents with at most 2 non-default choices, all pairs of records (malformed ones included) in three workspaces; for growth, doubling a size up to 2^15 items and 2^21 bytes (thorough: 2^18, 2^24) must at most treble the work and leave the stack as it is; nesting to 96 (180). Builds with -O0 and -O2. Trusted: gcc, its coverage instrumentation.'),
 'P01': (S + 'exhaustive enumeration of derivations of a grammar up to a bound, against the declarations they were printed from',
         'All sequences of items in each body, all name, number, option and type forms in each place, files with a bounded number of deviations. Trusted: the printer and reference parser in mc/protoast.py.'),
 'P02': (S + 'exhaustive enumeration of layouts (every filler in every gap, pairs of insertions), and of errors at every token with every filler before',
         'Files that cover the grammar, in a compact and a roomy base layout.'),
 'P03': (S + 'exhaustive enumeration of arrangements of equally named types and of reference forms, against a reference resolver',
         'Every set of up to two (quick) or three (thorough) places of declaration, times scopes, name forms and member kinds. Trusted: the resolver in mc/protoast.py.'),
 'P04': (S + 'exhaustive enumeration of token and character mutations, against a reference grammar that returns all parses',
         'Every deletion, duplication, swap, insertion and replacement from an alphabet, every cut and removed range, of files that cover the grammar; pairs on small files in the thorough tier.'),
 'P05': (S + 'exhaustive enumeration of schemas up to a bound, each generated and compiled as C and C++ with assertions on the types',
         'Reference graphs over three messages, all nestings and orders, enums at every level, pairs of members, imports, names. Trusted: gcc, g++.'),
 'P06': (S + 'exhaustive enumeration of schemas up to a bound, each compiled and its contents enumerated against a reference wire model',
         'All kinds of fields with all classes of field numbers, pairs of kinds, oneofs, orders, names, nesting, enums, imports.' + REF),
 'P07': (S + 'exhaustive enumeration of operation histories in one process, of file sequences in one invocation, and of deviations from a plain environment',
         'Histories up to three operations over generate, parse, edit and failing files; all ordered pairs of files that declare the same names differently; sequences of up to three (quick) or four (thorough) files; at most two deviations over fourteen dimensions of the environment. Oracle: the result of a fresh process.'),
 'P08': (S + 'exhaustive enumeration of placements of an imported file and import path lists, and of import graphs, whose code is compiled, linked and explored',
         'All 64 subsets of six places times lists of up to three directories; all acyclic import graphs over three files times package relations.' + REF),
 'P09': (S + 'fault enumeration: every fault at every file operation of a run (preloaded library), and pairs of faults, each followed by a run without faults',
         'Six scenarios (C, Rust, Mys; several files; existing output), errors, interrupted and short transfers and kills at every operation. Operations on paths outside the scratch directory (the Python installation) do not fail.'),
 'P10': (S + 'exhaustive enumeration of schemas up to a bound, generated with and without the option and compared token by token, then compiled',
         'The schema families of P05, and constants with all name styles, numbers, scopes and packages.'),
 'P11': (S + 'exhaustive enumeration of command lines with a bounded number of deviations, of wrong command lines, and of file names, with the whole file tree compared before and after',
         'At most 2 (thorough 3) deviations over 15 dimensions; the Rust and Mys commands for existing output directories. Oracle for contents: generate_files() in a fresh process.'),
}
