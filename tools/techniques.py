"""Per property: the deciding method and how strong it is."""
FLOW = "path-sensitive dataflow / typestate analysis over the compiler's control-flow graphs"
BITS = "abstract interpretation over known bits and bit provenance (trace partitioning on input bits)"
TECH = {
    "T01": (FLOW, "Sound over all paths of the runner's entries from any queue/flag state, relative to the models of std types."),
    "T02": (FLOW, "Every path of the worker thread function with all callees followed; tasks assumed to return normally."),
    "T03": (FLOW, "All posting overloads, instantiated with opaque callables; closures analysed as the worker runs them."),
    "T04": (FLOW, "All reply overloads, instantiated with opaque callables; both closures analysed as the worker runs them."),
    "T05": (FLOW, "Every path of the timer thread function and of the delayed posting function."),
    "T06": (FLOW, "Every path of start, stop and the worker thread function."),
    "T07": ("type-level ownership analysis of the stored closures", "All posting overloads, with temporaries and named callables."),
    "K01": ("lockset analysis (path-sensitive, interprocedural within a class)", "Every function of the concurrent modules, every access to the eight guarded structures; sound relative to the std models."),
    "K02": ("lock-order and held-lock effect analysis over the call graph", "Locks tracked path-sensitively within a class, by transitive effect summaries across classes (virtual calls over all overriders)."),
    "K03": (FLOW, "Every path of push, pop, timed pop, empty and size, for the queue and the stack, from an arbitrary container."),
    "G01": (FLOW, "Every path of the read for twenty value types; what a lookup or conversion may raise comes from the exception-escape analysis."),
    "G02": (FLOW, "Every path of the manager's functions over its values and its map of configurations; the callback chain from monitor to task."),
    "R01": ("exception-escape analysis (interprocedural fixed point, path-sensitive where conditional)", "Both parsers and the three public parse operations, over every throwing operation they reach."),
    "E01": ("exception-escape analysis (interprocedural fixed point, path-sensitive where conditional)", "Every noexcept function, destructor, thread body and posted closure of the library; conditional standard operations discharged with difference bounds."),
    "E02": ("exception-escape analysis (interprocedural fixed point, path-sensitive where conditional)", "Every public operation of the parts that report failure by value, string operations for the five character types."),
    "N01": ("ownership / typestate analysis over the compiler's control-flow graphs", "Every function of the socket layer, all paths; constructors, destructors, moves (also onto itself) and every call that yields or consumes a handle."),
    "N02": (FLOW, "Every path that closes a handle, and the service's removal task from arbitrary request lists."),
    "N03": (FLOW, "Every asynchronous operation down to its registration, then every closure registered, to a fixed point over closure shapes."),
    "N04": (FLOW, "Every path of every function that makes a system call, every result and error code."),
    "N05": ("type-qualifier dataflow (byte order) over the compiler's control-flow graphs", "Every value stored to or read from a system address structure."),
    "N06": (FLOW, "Symbolic terms for the text offered and the sums reported, over unrolled loops and every partial result."),
    "N07": ("confinement (call-graph) and path-sensitive dataflow analysis", "Every access to the request lists; the polling task from arbitrary lists."),
    "P01": (FLOW + " with addresses as symbolic sums", "The reader from any number of bytes read and any records; the dispatch of a record from an arbitrary map of registrations."),
    "P02": (FLOW + " and typestate of the watches", "Every operation on the registrations from an arbitrary map of paths and files."),
    "L01": (FLOW, "Every path of the registry's operations from an arbitrary map, of every creation function and of the destructor."),
    "L02": (FLOW + " and typestate of stream and files", "Every path of the file sink's operations, every outcome of opening, writing, encoding."),
    "L03": (FLOW, "Every path from the logging call to the sink, with and without a runner, the posted task analysed as the runner runs it."),
    "C02": (FLOW + " and typestate of the streams", "Every path of the coders' public and internal operations and of the bit streams' operations, each stream operation with every outcome."),
    "J02": (FLOW + " and typestate of variants and iterators", "Every operation of Json, its iterators and reverse iterators, from an arbitrary value of every type and arbitrary indices and iterators."),
    "F05": ("abstract interpretation (intervals and known bits, with bisection)", "Every classification and conversion for five character types over the whole range of each type; decided exactly."),
    "F01": ("compile-fail witnesses enumerated from the documented syntax", "Every pair (thorough: triple) of options for every kind of argument, every ASCII presentation type and fill, every string over braces, colon, digits and text up to length 5 (thorough: 6), all pairs of types for nested fields; both compilers."),
    "F02": ("compile-fail witnesses around every limit", "Literals of every base and suffix around every power of two and every limit, beyond the largest type, all 8-bit values, malformed literals; both compilers."),
    "J03": ("abstract interpretation over pairs of values (range, order and provenance by conversions)", "Every pair of the eight JSON types and every order of their values; decided exactly for the library's own comparison code, taking the standard containers' operators to be consistent if their elements are."),
    "S01": (FLOW, "Every path of the periodic tasks, of the functions that post them and of every update function, with each system call failing and each scan converting any number of values."),
    "C03": (BITS, "Every content of 0 to 20 bytes, and every text of up to 29 characters with one arbitrary byte or any ending, through buffers of one to three groups (thorough: more lengths and four groups)."),
    "C04": (BITS, "Every number of buffered bits, every size of every unit type and every content; for reads, up to ten bytes (a buffer and more) left in the stream and every number of filling bits. Longer histories follow by induction over the states."),
    "U01": (BITS, "Every bit pattern of every sequence of units up to the longest character plus an open continuation, judged against Table 3-7 of the Unicode Standard."),
    "U02": (BITS, "Every 32-bit code point; every string of up to three (UTF-8), three (UTF-16) or two (UTF-32) units and every four-unit character for all 25 pairs of character types. Longer strings repeat the same loop body."),
    "U03": (BITS, "Every code point and prefix; escapes with every digit free (for one character type all eight digits, for the others a subset at a time), every single wrong unit and every truncation."),
}
NOT_APPLICABLE = {
    "C01": "The Base64 and bit stream decoders are covered by C03 and C04, which report every access outside a buffer. For the Huffman decoder the bounds depend on sums over code lengths read from the input (Kraft's inequality over a table), which no numeric domain in reach keeps.",
    "F03": "Rests on the relation between a cursor and the length of a string over arbitrary histories of the lexer, and on the standard library's number parsing behind it.",
    "F04": "The text is produced by the standard library's streams and to_chars: its completeness is a run-time quantity of code outside the repository.",
    "J01": "Needs an invariant on the content of strings over histories of mutations; the validation itself is decided by U01, and which operations throw by J02.",
    "C05": "Agreement of the Huffman coder with its decoder rests on the lengths and order of codes computed from symbol frequencies through a heap and a tree; no abstraction in reach relates the encoder's table of codes to the decoder's for every input, and comparing the sequences of fields alone would also be met by a wrong table.",
}
