import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,title)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L="llrl0/src/"
p("P01","Reading source text is exact and total",
 "Every source text is either read into the one sequence of S-expressions the grammar assigns to it (numbers, strings and characters with their escapes, symbols, quotes, annotations, index and rest sugar, comments) or rejected with an error located inside the text; the reader never crashes or loops. Every expression it produces prints as text that reads back as the same expression (numbers by value), and the location of every node covers exactly the text it was read from.",
 ["inputs"],"all token sequences and all short character strings over an alphabet with every special character","unit tests read some sixty hand-written fragments",
 [L+"lexer.rs",L+"parser.rs",L+"parser/grammar.rs",L+"parser/primitive.rs",L+"sexp.rs",L+"string.rs",L+"source_loc/location.rs"],
 [("lexer",L+"lexer.rs"),("LL grammar",L+"parser/grammar.rs"),("printing",L+"sexp.rs Display")])
p("P02","Preprocessor directives expand to exactly what they describe",
 "For every nesting of preprocessor directives and every set of enabled features, the preprocessed program consists of exactly the forms the directives select, repeat or build, in order, with everything else and its source locations untouched. Metavariables stand for their values by lexical scope, conditions combine by their boolean meaning, unselected forms have no effect whatsoever, and malformed directives, undefined metavariables and ambiguous expansions are reported as errors rather than ignored.",
 ["inputs","configurations"],"all small trees over the directives, metavariables and atoms, inside all contexts from a fixed list nested up to depth three, under every assignment of two features","unit tests expand some sixty fragments under one or two feature sets",
 [L+"preprocess.rs"],[("directive expansion",L+"preprocess.rs"),("scoping of metavariables",L+"preprocess.rs with_binds")])
p("P03","Loading finds every needed module once, and orders them, under any schedule",
 "Starting from the entry modules, loading reads every transitively imported module exactly once, under every interleaving of the parallel workers, and always terminates. The set of loaded modules, their contents and source positions, and the errors are a function of the sources alone: every module is the one its path names, the order puts dependencies before dependents, and an error is reported exactly when a module is missing, unreadable, malformed or imports itself, or when modules import each other, naming modules of an actual cycle.",
 ["schedules","configurations"],"all interleavings (up to a preemption bound) of the workers over all small import graphs, including missing, unreadable and cyclic modules","tests load a handful of acyclic graphs under whatever schedule the OS picks",
 [L+"source/collector.rs",L+"source.rs",L+"topological_sort.rs"],[("parallel collector",L+"source/collector.rs"),("dependency order",L+"topological_sort.rs")],
 [("collected set","modules already requested","llrl0/src/source/collector.rs")])
p("P04","Parallel module building is schedule-independent and isolates failures",
 "For every import graph and every interleaving of the build workers, each module is built exactly once, after everything it imports is complete, and the build terminates. The compiled result and the set of reported errors are the same under every schedule; modules that depend on a failed module are skipped, reported only as depending on a failed module and never with an error of their own, and every other module is still built.",
 ["schedules","programs"],"all interleavings (up to a preemption bound) over all small import graphs with any set of failing modules","parallel.rs tests run one schedule each on a few graphs",
 [L+"module/parallel.rs",L+"module.rs"],[("countdown scheduler",L+"module/parallel.rs"),("builtin cache",L+"module.rs")],
 [("pending dependency counter","dependencies of a module not finished yet",L+"module/parallel.rs")])
p("P05","The lowering pipeline delivers every module to the backend, in order, once",
 "Under every interleaving of the analysing, lowering and backend threads, every definition reaches the backend exactly once and before code that refers to it runs, and compilation terminates. At run time every module's top-level expressions execute exactly once, in textual order, after those of the modules it imports; macros run only when everything they need is there; an error or panic in one stage surfaces as an error and never as a hang or as silently truncated output.",
 ["schedules","programs","fault_sequences"],"all interleavings up to a preemption bound over all small import graphs, with faults injected in each stage; all small import graphs for run-time order","tests run whole compilations under whatever schedule occurs",
 [L+"lowering.rs",L+"lowering/context.rs",L+"backend/chibi.rs",L+"backend/llvm.rs",L+"pipeline.rs"],[("lowerizer thread",L+"lowering.rs"),("backend threads",L+"backend/chibi.rs"),("module initialisation",L+"lowering.rs")])
p("P06","Names resolve by lexical scope and by exactly what modules import and export",
 "Every use of a name refers to the innermost enclosing binding of that name, otherwise to the module's own top-level definition, otherwise to the definition it imports; a program in which some use has no such binding, or in which one scope defines or imports a name in conflicting ways, is rejected, and no other program is rejected for its names. A module sees exactly the names it imports (all, by prefix, or individually), including constructors, methods and re-exported definitions, and only of those the exporting module exports. (Names of macros are set aside: a macro is expanded wherever its name heads a form.)",
 ["programs"],"all small scope nestings and all combinations of import and export forms over small module graphs","tests cover each form once or twice",
 [L+"module/sema/resolver.rs",L+"module/sema/importer.rs",L+"module/scope.rs",L+"module/sema/ast_builder.rs",L+"module/sema/exporter.rs"],[("scope resolution",L+"module/sema/resolver.rs"),("importing",L+"module/sema/importer.rs"),("scopes",L+"module/scope.rs")])
p("P07","Unification of types and kinds is exact",
 "Two types (or kinds) with unknown parts unify exactly when some assignment of the unknowns makes them equal, and the assignment found is the most general one: it equates them, every other solution is an instance of it, and it never builds an infinite type. The outcome does not depend on the order in which the equations are presented, and a rigid type variable only ever equals itself.",
 ["inputs","histories"],"all sequences of equations between all small types over a few unknowns, constructors and rigid variables","a few unit tests of single equations",
 [L+"unification.rs",L+"unification/types.rs",L+"unification/kind.rs"],[("type unification",L+"unification/types.rs"),("kind unification",L+"unification/kind.rs")])
p("P08","Type checking accepts exactly the well-typed programs with principal types",
 "A program is accepted exactly when it has a type in the language's polymorphic type system (let-polymorphism for functions, higher-kinded parameters, type annotations as constraints), and every definition without annotation receives its most general type, with the same meaning for every declaration order (type variables that mutually recursive functions do not all share, and those nothing depends on, default). An annotation is accepted exactly when it is an instance of (for an expression) or no more general than (for a definition) that type, and ill-typed programs are reported as errors instead of crashing the compiler.",
 ["programs"],"all programs up to a size over some twenty sublanguages (functions, local and mutually recursive functions, data, matching, control, annotations, scoped type parameters) and all pairs of small data, class and function declarations","tests give a few dozen well- and ill-typed programs",
 [L+"module/sema/type_inference.rs",L+"module/sema/kind_inference.rs",L+"unification/types.rs",L+"module/sema/validator.rs"],[("type inference",L+"module/sema/type_inference.rs"),("kind inference",L+"module/sema/kind_inference.rs")])
p("P09","Match exhaustiveness and unreachable-clause reports are exact",
 "A match is rejected as non-exhaustive exactly when some value of the matched type is matched by none of its clauses, and a clause is rejected as unreachable exactly when no value reaches it. The example reported for a non-exhaustive match is a value of the matched type that no clause matches.",
 ["programs","inputs"],"all small pattern matrices over data types with several constructors, nested and recursive types, literals, wildcards, variables, as- and let-patterns","a dozen matrices in unit tests",
 [L+"pattern_matching.rs",L+"pattern_matching/matrix.rs",L+"pattern_matching/row.rs",L+"pattern_matching/pattern.rs",L+"module/sema/validator.rs",L+"pattern_matching/pattern.rs"],[("usefulness matrix",L+"pattern_matching/matrix.rs"),("checker",L+"module/sema/validator.rs")])
p("P10","A match runs its first matching clause with the right bindings",
 "For every value and every exhaustive list of clauses, executing the match evaluates the matched expression once and runs the body of the first clause whose pattern matches, with every pattern variable bound to the corresponding part of the value. This holds on every backend and optimisation level, for nested constructors, literals of every type, tuples, references and as-patterns.",
 ["programs","inputs"],"all small exhaustive clause lists over several data types, run on all values of the matched type, on every backend and optimisation level","tests run a few fixed matches",
 [L+"lowering/branch_expander.rs",L+"lowering/data_expander.rs",L+"lowering/translator.rs"],[("decision tree construction",L+"lowering/branch_expander.rs"),("data layout of patterns",L+"lowering/data_expander.rs")])
p("P11","Class constraints pick the one matching instance, coherently",
 "A constrained use compiles exactly when its constraints follow from the instances and assumptions in scope, and at run time every method call executes the definition in the instance selected by the types involved, including through superclasses, conditional instances, default methods and higher-kinded classes. Conflicting instances are rejected, and the choice never depends on declaration order or module order. (Constraints whose evidence, with the superclasses of everything in it, is an infinite set are set aside.)",
 ["programs"],"all small sets of classes, instances and uses, in every declaration order","tests contain fixed class hierarchies in one order",
 [L+"module/sema/type_inference.rs",L+"lowering/translator.rs",L+"lowering/context.rs"],[("constraint resolution",L+"module/sema/type_inference.rs"),("instance selection at compile time of uses",L+"lowering/translator.rs")])
p("P12","Compiled programs compute what the source means on every backend",
 "For every program, running the compiled executable produces the values and side effects, in strict left-to-right order, that the language's semantics assigns to the source: functions, closures and their captures, recursion, let bindings, conditionals, loops, mutation, tuples and data. All backends, optimisation levels and execution modes (directly executed or written to an executable) agree with it and with each other.",
 ["programs","configurations"],"all small expression programs over an alphabet of effectful primitives, closures, mutation and control constructs, on each backend and optimisation level","tests run a few dozen programs",
 [L+"lowering/translator.rs",L+"lowering/normalizer.rs",L+"lowering/branch_expander.rs",L+"lowering/heap2stack.rs",L+"backend/chibi/codegen.rs",L+"backend/llvm/codegen.rs"],[("lowering passes",L+"lowering.rs"),("chibi code generation",L+"backend/chibi/codegen.rs"),("LLVM code generation",L+"backend/llvm/codegen.rs")])
p("P13","Arithmetic is exact at every width on every backend",
 "Every arithmetic, bitwise, shift, comparison and conversion operation on integers of every width and signedness returns the mathematically correct result reduced to its type, and on floating point the IEEE-754 result; unsigned overflow, sign and boundary cases, NaN and infinities included. Compile-time evaluation, every backend and every optimisation level give bit-identical results. (Signed overflow, division by zero, shifts by the width of the type or more, and conversion of floating point numbers outside the range of the integer type have no defined result.)",
 ["inputs","configurations"],"all 8-bit operand pairs and all boundary operand pairs of every wider width, for every operation, type, backend and optimisation level","tests use a handful of operands per operation",
 [L+"backend/chibi/codegen.rs",L+"backend/llvm/codegen.rs",L+"lowering/normalizer.rs","std/arithmetic.llrl","std/integer.llrl","std/bits.llrl","std/conv.llrl","std/float.llrl"],[("operation code generation",L+"backend/chibi/codegen.rs"),("standard library arithmetic","std/integer.llrl")])
p("P14","Values keep their contents through every data representation",
 "Whatever the shape of a value (any mix of field types and sizes, nested, generic, value- or reference-typed, any number of constructors), storing it in variables, fields, arrays, closures, function arguments and results and reading it back yields the same value and disturbs no other. Structures passed to and returned from C functions follow the platform's C calling convention exactly, in both backends and at every number of arguments.",
 ["programs","configurations"],"all small structure shapes over all primitive field types, in every storage position and as C arguments and results at every argument position","tests pass two or three fixed structures",
 [L+"backend/native/mem_layout.rs",L+"backend/native/data.rs","llrl0/src/backend/chibi/codegen/call_frame.rs",L+"backend/chibi/codegen.rs",L+"backend/llvm/codegen.rs",L+"lowering/data_expander.rs"],[("memory layout",L+"backend/native/mem_layout.rs"),("calling convention","llrl0/src/backend/chibi/codegen/call_frame.rs")])
p("P15","The assembler encodes every instruction it accepts exactly",
 "For every instruction form and every combination of operands it accepts, the bytes emitted decode to exactly that instruction with those operands. This includes register sizes and numbers, immediates with their sign extension, memory operands with every base, index, scale and displacement, and prefixes.",
 ["inputs"],"all instruction forms with all registers, boundary immediates and all addressing forms","tests check a few dozen encodings",
 ["xten0/src/asm/encoding.rs","xten0/src/asm/operand.rs","xten0/src/asm/writer.rs","xten0/src/asm/inst.rs"],[("encoding","xten0/src/asm/encoding.rs"),("writing","xten0/src/asm/writer.rs")])
p("P16","References to labels and symbols always land on their targets",
 "Whatever the order, sections and distances in which labels are used and defined, after linking every reference holds the address of its target plus its addend, both in memory and in the object files written for the system linker. Undefined, duplicate or out-of-range references are reported, earlier loaded code and data stay valid when more is loaded, and no reference is ever silently left unresolved.",
 ["histories","inputs"],"all small sequences of uses, definitions and loads over sections, symbols and reference kinds","tests link a few fixed objects",
 ["xten0/src/asm/obj.rs","xten0/src/asm.rs","xten0/src/jit.rs","xten0/src/jit/segment.rs","xten0/src/elf/adapter.rs","xten0/src/elf/format.rs"],[("label resolution","xten0/src/asm.rs"),("in-memory linking","xten0/src/jit.rs"),("object files","xten0/src/elf.rs")])
p("P17","Ordered maps and sets behave as sorted finite maps after any history",
 "After every sequence of operations, the mutable ordered map and set hold exactly the bindings that sequence defines; lookups, insertions and removals return what a sorted finite map would, and iteration is in ascending key order. Bulk operations (union, intersection, difference, copies, conversion) give the mathematical result, copies are independent of their source, and lookups take logarithmically many comparisons.",
 ["histories"],"all operation sequences to a depth from the empty map and every reachable tree shape up to a number of elements","tests follow a few fixed histories",
 ["std/ord-map.llrl","std/ord-set.llrl"],[("B-tree rebalancing","std/ord-map.llrl")],[("tree","nodes, children and element order","std/ord-map.llrl")])
p("P18","Hash maps and sets behave as finite maps after any history",
 "After every sequence of operations, for every distribution of hash values including full collisions, the mutable hash map and set hold exactly the bindings that sequence defines, and every operation returns what a finite map would; iteration visits each binding exactly once. Capacity requests, growth, copies and comparisons never change the contents, and no operation fails to terminate.",
 ["histories","inputs"],"all operation sequences to a depth over keys whose hash values collide, cluster or wrap around, from every reachable table state at small capacities","tests follow a few fixed histories under one hash distribution",
 ["std/hash-map.llrl","std/hash-set.llrl"],[("probing and back-shifting","std/hash-map.llrl")],[("table","buckets with hash parts","std/hash-map.llrl")])
p("P19","Vectors and arrays behave as sequences after any history",
 "After every sequence of operations, arrays and growable vectors hold exactly the elements the corresponding operations on a mathematical sequence give; slices, sorting, searching, bulk updates, resizing and conversion included. Out-of-range accesses stop the program rather than touching other memory, and capacity is never observable except through the operations that report it.",
 ["histories","inputs"],"all operation sequences to a depth with all small index and length arguments, including out-of-range ones","tests call each function once or twice with in-range arguments",
 ["std/internal/array-vector.llrl","std/array.llrl","std/vector.llrl"],[("arrays and vectors","std/internal/array-vector.llrl")])
p("P20","Strings and texts operate exactly on their UTF-8 contents",
 "Every string operation (construction, concatenation, slicing, searching, splitting, replacing, trimming, prefix and suffix handling, character iteration, comparison) returns what the same operation on the character sequence defines, and always terminates. Strings remain valid UTF-8, invalid encodings are rejected, and encoding then decoding any character sequence is the identity.",
 ["inputs","histories"],"all short strings over an alphabet with characters of every encoded length, for every operation and argument; all encodings of up to four bytes in boundary classes","tests use a few mostly-ASCII strings",
 ["std/internal/string-text.llrl","std/internal/utf-8.llrl","std/string.llrl","std/text.llrl","std/char.llrl"],[("string operations","std/internal/string-text.llrl"),("UTF-8 codec","std/internal/utf-8.llrl")])
p("P21","Iterators and control constructs behave by their definitions",
 "Every iterator adaptor and consumer yields exactly the sequence its definition gives for every input sequence, in order, evaluating each source element at most once and none beyond what is needed, including at and after exhaustion. Loops, early exits, returns, conditionals, assertions and pattern-based conditionals execute exactly the iterations and branches their definitions prescribe under every nesting.",
 ["inputs","programs"],"all pipelines of a few adaptors over all short sources with arguments around their lengths; all small nestings of control constructs","tests run each adaptor on one or two sequences",
 ["std/it.llrl","std/iterator.llrl","std/control.llrl"],[("adaptors","std/it.llrl"),("control macros","std/control.llrl")])
p("P22","Numbers and their texts convert exactly in both directions",
 "Parsing a number text yields exactly the value it denotes when the target type can represent it and fails otherwise, for every type, radix prefix, sign and length. Printing a number yields text that parses back to the same value, and converting between number types yields the value the target type's rules assign to it, exactly whenever it is representable.",
 ["inputs"],"all short texts over digits, signs, prefixes and junk for every type, and all boundary values of every type","tests convert a few values",
 ["std/integer.llrl","std/float.llrl","std/conv.llrl","std/display.llrl","rt/rt.c","std/char.llrl"],[("parsing and printing","rt/rt.c"),("conversions","std/conv.llrl")])
p("P23","Equality, ordering and hashing are lawful and agree with each other",
 "For every type the library or the derive facility provides them for, equality is an equivalence, ordering is a total order consistent with equality, comparison helpers agree with the ordering, and equal values hash equally, structurally over all fields and constructors in declaration order. Hashing equals the published XXH64 function of the bytes written, for every split of the input into pieces.",
 ["inputs","programs"],"all pairs and triples of small values of every provided type and of derived data types; all short inputs in all splits","tests compare a few values",
 ["std/ord.llrl","std/eq.llrl","std/hash.llrl","std/xxhash.llrl","std/derive.llrl","std/tuple.llrl","std/option.llrl","std/result.llrl"],[("derived instances","std/derive.llrl"),("hash function","std/xxhash.llrl")])
p("P24","Readers, writers, paths and files move exactly the right bytes",
 "Whatever sizes of chunks the underlying source or sink accepts or returns, reading and writing through every reader and writer moves exactly the bytes in order, with none lost, repeated or invented, and reports end of input and errors exactly when they occur. Path operations follow the path grammar, and file operations have exactly the documented effect for every combination of open options.",
 ["fault_sequences","inputs","histories"],"all patterns of short reads, short writes and errors over short inputs; all short paths; all open-option combinations","tests read whole in-memory buffers",
 ["std/rw.llrl","std/io.llrl","std/io/file.llrl","std/io/path.llrl","rt/rt.c"],[("readers and writers","std/rw.llrl"),("files","std/io/file.llrl"),("paths","std/io/path.llrl")])
p("P25","Macros expand to exactly what their definitions produce",
 "A macro use is replaced by the syntax its transformer computes from exactly the argument syntax given, quotation and splicing build exactly the described syntax, and expansion continues until no macro use remains. Generated symbols never collide with any other symbol, matching of syntax accepts and binds exactly what the syntax pattern describes, and a failing macro is reported as an error at its use.",
 ["programs","inputs"],"all small quotation templates and syntax patterns over all small syntax trees; all small histories of symbol generation","tests expand a few macros",
 [L+"module/sema/resolver.rs",L+"sexp/matcher.rs",L+"sexp/native.rs","std/s.llrl","std/boot","rt/rt.c"],[("expansion",L+"module/sema/resolver.rs"),("syntax conversion",L+"sexp/native.rs"),("quasi-quotation and matching","std/s.llrl")])
p("P26","The self-hosted compiler agrees with the bootstrap compiler",
 "For every program, the compiler written in the language itself accepts exactly what the bootstrap compiler accepts, and the executables the two produce behave identically. It reports the same kind of error for every rejected program and never crashes, on both of its backends.",
 ["programs"],"all small programs of the other properties' enumerations, through both compilers","no test compares the two compilers beyond one fixed suite",
 ["llrl1","xten1","llvm1"],[("self-hosted pipeline","llrl1/pipeline.llrl"),("self-hosted matching","llrl1/pattern-checker.llrl")])
p("P27","The command line tools report success and failure faithfully",
 "The compiler exits with status zero exactly when everything it was asked to do succeeded, passes a directly run program its arguments, input and exit status (including death by a signal) faithfully, and on failure reports the error and leaves no output file that could be taken for a result. Every combination of options has the documented effect or is refused.",
 ["configurations","fault_sequences"],"all combinations of options, entry modules, program outcomes and output-path faults","no test runs the command line tool",
 [L+"main.rs",L+"pipeline.rs",L+"report.rs"],[("command line",L+"main.rs"),("pipeline",L+"pipeline.rs")])
p("P28","Persistent maps behave as immutable finite maps under any sharing",
 "Every operation on a persistent ordered or hash map returns the map the mathematical operation defines, for every distribution of hash values, and leaves every earlier version unchanged however versions are shared. Ordered iteration is ascending, and equality, ordering and hashing of persistent maps depend only on their contents, not on how they were built.",
 ["histories","inputs"],"all operation sequences to a depth over several live versions, with colliding keys, from every reachable tree shape up to a size","tests follow a few fixed linear histories",
 ["std/persistent/ord-map.llrl","std/persistent/hash-map.llrl"],[("balanced tree","std/persistent/ord-map.llrl"),("hash trie","std/persistent/hash-map.llrl")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema,os
for x in P:
    for f in x['anchors']['files']+[m['where'].split(' ')[0] for m in x['anchors']['mechanism']]:
        if not os.path.exists('/repo/'+f): print(x['id'],'no such file',f)

s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
