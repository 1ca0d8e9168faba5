"""What the proofs take for granted; copied into every evidence file (BASE: always; EXTRA: per property)."""
BASE = [
    'machine integers: none treated as mathematical; in compiled code every C operation and implicit conversion carries a no-overflow / no-truncation obligation (C right/left shifts of negative longs: as gcc does them, arithmetic and wrapping; a signed operation that does overflow wraps, -fno-strict-overflow, and the postconditions decide on the wrapped value)',
    'CPython C-API and libc contracts (PyBytes_*, PyByteArray_*, memcpy, memset), the struct module and the builtins (len, range, slice.indices, bytes.find/join/slicing, isinstance, min, max, divmod) are assumed as modelled in dv/builtins_model.py',
    'a typed little-endian load/store of n bytes through a C pointer equals struct.unpack/pack of the same n bytes (x86-64)',
    'memory allocation does not fail; buffers are smaller than 2^60 bytes; messages under construction are smaller than 4 GiB (pointer offsets have 30 bits)',
    'Cython: the C it generates means what its analysed tree says; clang: its syntax tree of ptr.h/_hash.h/_hash_cpython.c is what gcc compiles',
    'cdef/cpdef methods of the runtime classes are not overridden by subclasses written by users',
    'recursive functions (copy_pointer, endof, copy_from_list, shortrepr) are proved partially correct: a message with a pointer cycle makes them recurse until the interpreter stops them, which is outside of the contracts',
    'pointers of kind 3 ("other": capabilities) are outside of the contracts',
]
ANY = ['any-schema tasks: the names of members and types are identifiers and used as such; the header of the generated module is that of the corpus; the code writer of pypytools (w, ww, block, def_, cdef_, call, args) does what its model says; '
       'members without $Py annotations; offsets, sizes and discriminant offsets < 2^16, tags and enum defaults < 2^15; the bits of a float default are those of the schema; a constructor has one member, or three with two of them in a union, with different names (collections.namedtuple and set() as their models say); a key has one to three; the XOR of two unknown integers is modelled by its involution and range axioms']
GEN = ['generated accessors and constructors are taken from the code the compiler under test generates, on every run, for the corpus schemas of harness/schemas in both modes: all messages and arguments, bounded over schemas',
       'the code generator itself is run in pure-Python mode (the schema readers it uses are the ones under contract)',
       'bit patterns of floats: F32BITS/F32OF and F64BITS/F64OF are inverse functions; arguments of Float32 fields are float32-representable']
EXTRA = {
    'C04': ['source objects nested at any depth: induction on the derivation of "is a copy of", not on a bound'],
    'C07': ['the reader of the dumped bytes is the loader under contract (C08) and resolve() of C10'],
    'C08': ['a file-like object passed in keeps the io.RawIOBase-like contract: read(n) returns the next n bytes of the stream, or all that is left if fewer',
            'loaded segment tables describe segments inside of the body that was read (which is what _load_message proves of what it builds)'],
    'C09': ['socket.recv(n) returns the next 1..n bytes of the stream, or b"" at its end', 'subclasses of BufferedStream override _readchunk() only'],
    'C10': GEN + ['MultiSegment.segment_offsets are offsets inside of the buffer (proved by C08 of every loaded message)'],
    'C11': GEN + ANY + ['bytes.decode/str.encode("utf-8") are inverse functions where they do not raise'],
    'C12': GEN + ANY + ['struct arguments are structs of the contracts: data offset multiple of 8, in a message smaller than 4 GiB', 'texts are shorter than 2^28 bytes, struct lists shorter than 2^29 items', '_undefined is compared by identity and passed by nobody else', 'the XOR of integers with a constant is modelled by its involution and range axioms'],
    'C13': GEN + ANY,
    'C14': ['iteration uses __len__/__getitem__ (the legacy sequence protocol), as CPython defines it'],
    'C15': ['a sequence given as argument is stable: iterating twice gives the same items, as many as len() says', 'lists of Bool given to constructors are refused (NotImplementedError), which the contract states'],
    'C16': GEN + ANY + ['hash() of a tuple/int/bytes is the algorithm of CPython 3.12 that C17 specifies; hashes of nested key objects are taken inductively', 'the comparison slots (tp_richcompare) of compiled classes dispatch as Cython documents'],
    'C17': ['_Py_HashBytes(p, n) is hash() of the n bytes at p', 'a word array is what Cython passes as long[]'],
    'C18': ['ids of nodes, fields and enumerants are distinct and each node has one parent (the schema compiler of capnp guarantees both)', 'an Options object reads back its constructor arguments (C12)', 'as_struct(annotate.Options) reads the annotation in the request (C10/C11)'],
    'C19': ['pickle and marshal restore equal bytes, ints, tuples and None, and call the reduce function with the saved arguments'],
    'C20': GEN + ANY + ["repr() of bytes, ints and floats as documented by Python; capnpy.floatrepr (not built here) replaced by repr", "capnp's grammar of text values (parentheses, name = value, comma) and its lexer's escapes, as modelled by unescape() in contracts/c20.py; the real capnp is run in the bounded part", 'enumerants and field names are identifiers', 'the accessors (is_, has_, get_) of the generated classes keep the contracts of C11 and C13'],
    'C21': GEN + ['agreement is proved through the common contract; exceptions of two implementations agree when both are in the set the contract allows'],
    'C22': ['text is read back with the ast module: repr() of None, bool, int, finite float, bytes and tuples reads back as the value, float(repr(x)) is x', 'the classes of imported modules are those the modules define; __extend__/_magic_setattr put attributes on the class they name (run for real in the bounded part)', 'a list is determined by segment, offset, size tag, count and item type (C04, C14); compact() gives an equal struct (C14, C07)', 'schema file names are Python identifiers'],
}
def assumptions(prop): return BASE + EXTRA.get(prop, [])
