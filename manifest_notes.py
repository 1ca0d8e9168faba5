NA = {}
TECH = 'contract-based deductive verification of the real Python/Cython/C source (sidecar contracts, own VC generator, z3)'
TECHB = TECH + '; run-time contracts on the real code as the bounded stand-in for what is not proved'
P = lambda note: ('proof', note, TECHB)
COMMON = ' The same contracts are also executed on the real builds (bounded, labelled so).'
NOTES = {
 'C01': P('every accessor and constructor of capnpy/ptr (C macros/inline functions through clang, the pure Python twins through ast) against the encoding\'s bit fields, for all 64-bit words, in both implementations.' + COMMON),
 'C02': P('all ten kinds of reads and writes, the packing helpers and the bounds checks of the three segment classes, in both implementations, for all buffers, offsets and values.' + COMMON),
 'C03': P('every allocation function of the builder against zero fill, alignment, disjointness, growth and the pointer written; bit and primitive writes with frame conditions.' + COMMON),
 'C04': P('copy.copy_pointer and its helpers against a deep-equality relation by induction on the copied object, with frames; recursion is partial correctness.' + COMMON),
 'C05': P('every raw read of the copier is within the source buffer and every write within freshly allocated space, for arbitrary source bytes, pointers and counts.' + COMMON),
 'C06': P('endof and the compactness tests: a reported end bounds every part of the object, no pointer leaves the range, none is far, and gaps and reorderings give "not compact".' + COMMON),
 'C07': P('dumps/dump/compact on both paths against "a complete single-segment message denoting an equal object", using the contracts of C04 and C06.' + COMMON),
 'C08': P('message loading (header, padding, segment table, bodies), loads and the load_all generator against the framing specification, over an abstract stream contract.' + COMMON),
 'C09': P('read/readline/tell of the buffered, file and string streams against consecutive pieces of the source, for every chunking of the source.' + COMMON),
 'C10': P('every pointer reader of Struct and List, and every method of AnyPointer, through resolve(): one- and two-word landing pads in any segment, refused when the segment does not exist.' + COMMON),
 'C11': P('field readers for all messages, and every getter, has_ and get_ the compiler generates for the corpus schemas (regenerated on every run, both modes): for all messages. Plain members are also proved for every schema, by executing the generator on a member with unknown offset, default and tag and reading back what it writes; groups and annotated members are bounded over schemas.' + COMMON),
 'C12': P('every constructor the compiler generates for the corpus schemas: for all arguments, each field stored exactly, the others at their defaults, range errors raised. For every schema, through the generator: the code written for a member (place, frame, tag) and the constructors (new_X of unions too) of structs of any size with one and three members; groups, union groups and nullable groups of two members; more members together and groups in groups are bounded over schemas.' + COMMON),
 'C13': P('tag readers, which/is_/_ensure_union and all generated union accessors and constructors of the corpus schemas: for all messages and arguments; plain members and the tag methods also for every schema, through the generator; groups are bounded over schemas.' + COMMON),
 'C14': P('length, index, slice, iteration, item readers of every element type and list equality, for all lists and layouts, in both implementations.' + COMMON),
 'C15': P('copy_from_list and write_item of every element type, with loop invariants over the items and frame conditions, for all sequences and layouts.' + COMMON),
 'C16': P('generated _key, __hash__ and comparison of the keyed corpus structs, the generic hash/equality code and the text hashes: for all field values. For every schema, through the generator: _key and __hash__ for keys of one to three members of any kind; longer keys and comparisons are bounded over schemas.' + COMMON),
 'C17': P('inthash, longhash, strhash, the C tuple hash (bit-vector semantics through clang) and its loop against the interpreter\'s algorithms, for all inputs.' + COMMON),
 'C18': P('Options.combine, compute_options of files, structs, enums, fields and enumerants (loop invariants over children, induction on the scope tree) and the option table, for all schemas and all combinations of options.' + COMMON),
 'C19': P('__reduce__/_raw_dumps/_raw_loads and what they restore, for all structs, with pickle/marshal round trips assumed.' + COMMON),
 'C20': P('the escaping functions for all strings (character-wise images read back by a model of capnp\'s lexer), item texts, List.shortrepr, enumerant names, and every generated shortrepr, of the corpus schemas and, through the generator, of structs of every schema with five members; capnp\'s text grammar and float repr are assumed there and run for real in the bounded part.' + COMMON),
 'C21': P('one contract on both implementations of every runtime function and of every accessor and constructor generated for the corpus schemas (bounded over schemas): where both keep it they agree; a function that leaves it in one mode only is the violation.' + COMMON),
 'C22': P('the text emitted for every kind of constant evaluates to the value of the schema, struct and list literals denote the object they were made from, type paths and item types: for all schemas and values (the rules of Python expressions are those of the ast module); what Cython and CPython make of whole modules is in the bounded part.' + COMMON),
}
DEFAULT = ('exploration', 'bounded: run-time contract checks of the real code (both implementations) against an independent reader/writer and the capnp tool; no deductive part for this property (see DESIGN.md)', 'run-time contracts on the real code (bounded stand-in for the contract proof)')
