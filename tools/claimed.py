NOT_APPLICABLE = {}
CLAIMED = {
"P01": ("exhaustive enumeration of all short texts over several alphabets through the real lexer, parser and printer, against an independent reader", "model_checking",
        "Exhaustive within the stated lengths and alphabets; nesting depth is limited by the enumeration, stack exhaustion on very deep nesting is not decided."),
"P02": ("exhaustive enumeration of directive trees in nested contexts under every feature set through the real preprocessor, against an independent expander", "model_checking",
        "Exhaustive within the stated tree sizes and context list; both the expansion and the source locations are compared."),
"P03": ("stateless exploration of all interleavings up to a preemption bound of the real module collector and loader, run on a controlled scheduler over all small module graphs, file states, layouts and spellings, against the graph's own reachability and cycles", "model_checking",
        "Sequentially consistent memory; exhaustive within the stated module counts, layouts and preemption bounds; two fixed iteration orders of hash maps."),
"P04": ("stateless exploration of all interleavings up to a preemption bound of the real parallel builder on a controlled scheduler, over all small import graphs with failing modules and worker counts", "model_checking",
        "Sequentially consistent memory; exhaustive within the stated graphs, failures, workers and preemption bounds."),
"P05": ("stateless exploration of all interleavings up to a preemption bound of the real builder, lowering queue and backend thread on a controlled scheduler over all small import graphs, with the executed order of top level expressions compared with the import order, and programs of every small graph compiled and executed by both backends", "model_checking",
        "Sequentially consistent memory; exhaustive within the stated graphs, failures and preemption bounds; the order between unrelated entry points is left open."),
"P06": ("exhaustive enumeration of name choices in nested scopes and of import and export forms over small module graphs through the real front end, against a reference for lexical scope and imports", "model_checking",
        "Exhaustive within the stated nestings, name universe, forms and graphs; names of macros are set aside."),
"P07": ("exhaustive enumeration of all short sequences of equations and of patterns over small term sets through the real unification contexts, against textbook unification", "model_checking",
        "Exhaustive within the stated term depths, levels and sequence lengths."),
"P08": ("exhaustive enumeration of all programs up to a size over several sublanguages through the real front end, against a textbook inference and an explicit type checker of what was inferred", "model_checking",
        "Exhaustive within the stated sublanguages and sizes; class constraints are P11's."),
"P09": ("exhaustive enumeration of clause lists over small pattern sets, each a program through the real front end, against brute force over all values", "model_checking",
        "Exhaustive within the stated types, pattern depths and clause counts; integer literals are written canonically and in range."),
"P11": ("exhaustive enumeration of all small sets of instances, uses and module placements through the real front end against backward chaining, with every piece of inferred evidence checked and every method call of the consistent sets executed", "model_checking",
        "Exhaustive within the stated pools of instances, goals and module graphs; programs are run on the chibi backend."),
"P10": ("exhaustive enumeration of exhaustive clause lists over small pattern sets, each executed on all values of the matched type on every backend, against first-match semantics", "model_checking",
        "Exhaustive within the stated types, pattern depths and clause counts."),
"P12": ("exhaustive enumeration of typed expression programs up to a size, each executed under every small input tape on every backend, level and mode and compared with a reference interpreter event by event", "model_checking",
        "Exhaustive within the stated sizes and alphabet; programs whose reference run exceeds the step bound are left out."),
"P13": ("exhaustive enumeration of operand pairs (all 8-bit ones, all boundary ones of wider types) for every operation and type, executed by both backends at both optimisation levels, from literals and inside macros, against 128-bit and IEEE-754 references", "model_checking",
        "Exhaustive within the stated operand sets; operations whose result the language leaves open are set aside."),
"P14": ("exhaustive enumeration of small structure, union, enumeration and reference shapes through every storage route and every C argument position on both backends, against C's own layout and calls", "model_checking",
        "Exhaustive within the stated shapes, routes and register prefixes; the LLVM backend's C calls are covered for the structures it passes as C does, the others are recorded findings."),
"P15": ("exhaustive enumeration of every instruction form with every register choice, boundary immediates and all addressing forms through the real encoder, decoded by an independent disassembler", "model_checking",
        "Exhaustive within the stated registers, immediates, displacements and addressing forms; GNU objdump is the decoder, and re-encodings it cannot tell apart by their meaning are compared after normalising names."),
"P16": ("exhaustive enumeration of small assembly programs and of load histories through the real writer, in-memory linker and object file writer, against a linker written from the psABI and GNU ld", "model_checking",
        "Exhaustive within the stated sections, kinds, distances and depths; a sample-free subset of the objects is also linked by GNU ld."),
"P17": ("explicit-state exploration of the compiled library: every operation sequence to a depth and every reachable B-tree shape, against a reference map", "model_checking",
        "Exhaustive within the stated bounds on the real compiled code; the compiler that builds the harness is part of what is checked. Beyond the element-count bound nothing is claimed except for the listed large start states."),
"P28": ("explicit-state exploration of the compiled library over several live versions, against reference maps", "model_checking",
        "Exhaustive within the stated bounds on the real compiled code, with colliding hash parts chosen under a fixed hasher seed."),
"P18": ("explicit-state exploration of the compiled library under every small distribution of hash values, against a reference map", "model_checking",
        "Exhaustive within the stated bounds (keys with chosen colliding hashes under a fixed hasher seed) on the real compiled code."),
"P19": ("explicit-state exploration of the compiled library: all operation sequences to a depth over small vectors and arrays, against a sequence model", "model_checking",
        "Exhaustive within the stated bounds; out-of-range accesses are each run in a process of their own, which must stop."),
"P20": ("exhaustive enumeration of small strings, all UTF-8 byte prefixes, all code points and text operation sequences, against a reference", "model_checking",
        "Exhaustive within the stated bounds on two backends; one recorded finding (char/from-unicode-scalar)."),
"P22": ("exhaustive enumeration of values, texts and literals at every boundary of every numeric type through the real parsers and printers of the runtime and the language, against exact decimal and IEEE-754 references", "model_checking",
        "Exhaustive within the stated value and text sets; of floating point texts written with leading zeros, plus signs or in hexadecimal only the value is checked, not whether they are accepted."),
"P24": ("exhaustive enumeration of operation sequences on readers, writers, files, paths, directories and processes of compiled programs, with every short or failing result of the underlying streams enumerated, against the C library on an equal copy of the file system", "model_checking",
        "Exhaustive within the stated contents, buffer sizes, sequence lengths, path alphabets and directory trees; faults of the kernel itself are not injected."),
"P25": ("exhaustive enumeration of syntax trees, quasi-quotation templates, syntax patterns and expansion contexts, each passed through real macros at compile time and executed by both backends, against a reference for quotation, matching and expansion", "model_checking",
        "Exhaustive within the stated template, pattern and tree sizes and contexts; nested quasi-quotation is not supported by the language and set aside."),
"P27": ("exhaustive enumeration of command lines, program outcomes and failures of inputs, output paths and tools through the real command line tool in scratch directories, against a table of documented effects", "model_checking",
        "Exhaustive within the stated options, entries, outcomes and faults; faults inside the C compiler it calls are limited to its exit status."),
}
