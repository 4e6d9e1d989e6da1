HOOK_COMMITS = ["53827c5"]
PROPS = []
NA = []
PARSER = "crates/compiler/parser/src/parser.rs"
LEXER = "crates/compiler/parser/src/lexer.rs"
def P(id, crate, title, statement, over, for_all, why, files, mech, technique, note, **kw):
    PROPS.append(dict(id=id, crate=crate, title=title, statement=statement, over=over, for_all=for_all, why=why, files=files, mech=mech, technique=technique, note=note, **kw))
def N(id, title, statement, over, for_all, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, for_all=for_all, why=why, files=files, mech=mech, reason=reason))

P("P01", "fe", "A program is parsed as exactly the program that was written",
  "Every text in the Cairo-M grammar is accepted without a diagnostic, and the tree produced is exactly the program written: same items, statements, expressions, operator grouping, names, literals and types, whatever the layout, comments, number base, optional commas and optional parentheses used.",
  ["programs", "inputs"], "every module over the whole grammar (bounded nesting), in every layout",
  "Snapshot tests cover a few dozen hand-written snippets; precedence, lookahead and layout interact in unboundedly many combinations.",
  [PARSER, LEXER], [("expression/statement/item combinators", PARSER), ("token rules", LEXER)],
  "monitor: generated programs, parse tree compared with the model they were rendered from",
  "Exploration of hundreds of thousands of random modules per run; trusts the harness' renderer and its table of the documented grammar. `&&`/`||` grouping and `if x {}` are listed findings and probed on every run.")
P("P02", "fe", "Every input text gets a tree or located diagnostics, in bounded work",
  "Any text whatever is processed without panicking: it yields either a module without diagnostics, or no items and at least one error diagnostic whose range lies inside the text on character boundaries, names the file and can be rendered against the source. The work done does not explode with the nesting of the text.",
  ["inputs"], "every text; nesting depth bounded (48 in the check), since the parser is recursive",
  "Tests parse valid or nearly valid snippets only; arbitrary bytes, truncations and adversarial nesting are not sampled.",
  [PARSER, LEXER, "crates/compiler/diagnostics/src/reporting.rs"], [("lexical and syntax errors turned into diagnostics", PARSER), ("report rendering", "crates/compiler/diagnostics/src/reporting.rs")],
  "monitor: hostile inputs with panic capture, range checks and allocation counting",
  "Exploration; work is measured by counting allocations, not time. Depth beyond the bound overflows the stack of a recursive parser and is outside the property.")
P("P03", "fe", "Every reported source range is exactly the construct's text",
  "The source range recorded for every item, statement, expression, type, identifier and array length is exactly the text of that construct: from its first token to its last, excluding surrounding blanks and comments.",
  ["programs"], "every module over the grammar, in every layout",
  "Ranges show up in snapshots for a few layouts only; editor features and diagnostics index by range for every program.",
  [PARSER], [("span construction for each combinator", PARSER)],
  "monitor: ranges in the tree compared with where the renderer wrote each construct",
  "Exploration; ranges of calls with arguments and of index expressions stop before the closing bracket (listed finding, recognised by its exact shape).")
P("P04", "fe", "Tokens and literals denote what was written, or are refused",
  "Any text is split into exactly the tokens the lexical grammar defines, at the right positions. A numeric literal denotes its mathematical value in its base with its suffix, or, if it has bad digits, an unknown suffix or exceeds 64 bits, it is reported; it is never silently read as another value.",
  ["inputs"], "every text, and every numeric lexeme in each base around every bound",
  "Tests sample a handful of literals; the accept/refuse frontier and longest-match rules range over all texts.",
  [LEXER], [("token regexes and number conversion", LEXER)],
  "monitor: token stream compared with an independent lexer on random and edited texts",
  "Exploration of about a million texts and lexemes per run against an independent lexer.")
P("P05", "fe", "Text outside the grammar is always refused",
  "A text that is not derivable in the Cairo-M grammar is never accepted: parsing it reports at least one error.",
  ["inputs"], "every text outside the grammar (up to 160 tokens in the check)",
  "Tests contain a few dozen malformed snippets; acceptance errors hide in specific token sequences.",
  [PARSER], [("grammar combinators", PARSER), ("end-of-input requirement", PARSER)],
  "monitor: edited programs judged by an independent exhaustive recogniser",
  "Exploration; the recogniser explores all derivations of an over-approximating grammar, so it can only miss, not invent, violations.")

FMT = "crates/compiler/formatter/src"
P("P06", "fe", "Formatting never changes the program",
  "Formatting a text that parses yields a text that parses to the same program: only redundant parentheses around conditions and types and an explicitly written unit return type may disappear, under every configuration of the formatter.",
  ["programs", "configurations"], "every module in every layout, under every formatter configuration",
  "Formatter tests are about a dozen snippets; whether dropped parentheses or commas change meaning depends on what surrounds them.",
  [FMT + "/rules/expressions.rs", FMT + "/rules/statements.rs", FMT + "/rules/items.rs", FMT + "/rules/types.rs", FMT + "/doc.rs"], [("formatting rules per construct", FMT + "/rules"), ("layout engine", FMT + "/doc.rs")],
  "monitor: formatted text parsed again and compared with the program written",
  "Exploration of random modules, layouts and configurations per run; trusts the harness model and its parse-tree conversion.")
P("P07", "fe", "Formatting keeps every comment, in order",
  "Every comment of a text that parses is still there after formatting, exactly once, with the same text and in the same order, wherever it stood: between any two tokens, in empty bodies, in files of comments only.",
  ["programs", "configurations"], "every module with line comments anywhere, under every formatter configuration",
  "Tests place comments in three positions; a comment can stand between any two tokens of any construct.",
  [FMT + "/comment_attachment.rs", FMT + "/trivia.rs", FMT + "/context.rs", FMT + "/simple_comment_preserver.rs"], [("comment scanning and attachment", FMT + "/comment_attachment.rs"), ("printing around nodes", FMT + "/context.rs")],
  "monitor: sequence of comment texts compared before and after formatting",
  "Exploration; trailing blanks of a comment are ignored.")
P("P08", "fe", "Formatting is idempotent, layout-independent and leaves broken text alone",
  "Formatting an already formatted text changes nothing. Two comment-free layouts of one program are formatted identically, and a text that does not parse is returned unchanged, byte for byte.",
  ["programs", "inputs", "configurations"], "every module and every text, under every formatter configuration",
  "One idempotence test on one snippet; stability interacts with comments, width and every rule.",
  [FMT + "/api.rs", FMT + "/doc.rs", FMT + "/rules/statements.rs", FMT + "/comment_attachment.rs"], [("entry point that skips unparsable text", FMT + "/api.rs"), ("layout engine", FMT + "/doc.rs")],
  "monitor: format twice, format two layouts, format broken text, compare bytes",
  "Exploration of random modules and edited texts per run.")

SEM = "crates/compiler/semantic/src"
V = SEM + "/validation"
P("P09", "fe", "Well-typed programs are accepted",
  "A program that obeys Cairo-M's typing, naming, arity, control-flow and import rules is accepted: checking it reports no error, whatever combination of types, literals, shadowing, nesting, modules and control flow it uses.",
  ["programs"], "every well-typed program of one or more modules",
  "Semantic tests are short snippets of one feature each; false rejections come from features meeting each other (literal typing in contexts, imports used in types, shadowing, nested patterns).",
  [V + "/type_validator.rs", SEM + "/type_resolution.rs", SEM + "/semantic_index.rs"], [("validators", V + "/type_validator.rs"), ("expression types and literal inference", SEM + "/type_resolution.rs"), ("scopes and uses", SEM + "/semantic_index.rs")],
  "monitor: generated well-typed programs, judged by an independent reference checker, run through the real checker",
  "Exploration of about 6000 random programs per 20 s. Trusts the reference checker in the harness; an array literal mixing suffixed and unsuffixed elements away from a direct context is outside what is generated.")
P("P10", "fe", "Every expression has the type the language gives it",
  "In a well-typed program the type reported for every expression, at any depth, is the type the language rules give it: literals take the type of their context, operators and casts their result types, calls the declared result, fields, indices, tuple elements, patterns and names the declared or inferred type.",
  ["programs"], "every expression of every well-typed program",
  "Tests query the type of a few expressions; later phases (layout, code generation) rely on it at every node.",
  [SEM + "/type_resolution.rs", SEM + "/types.rs", SEM + "/builtins.rs"], [("expression_semantic_type", SEM + "/type_resolution.rs"), ("definition_semantic_type", SEM + "/type_resolution.rs")],
  "monitor: type query on every expression node compared with the generator's types",
  "Exploration, about a million expressions per run; literals typed only by their context are compared where the language fixes them.")
P("P11", "fe", "Every name refers to the declaration the scope rules give it",
  "Every identifier and type name refers to the innermost declaration visible at that point: the latest one before it in its scope, otherwise an enclosing scope, otherwise a module item, an import resolved in the imported module, or a builtin; shadowing, loops, blocks, parameters and imports included.",
  ["programs"], "every use of a name in every well-typed program of one or more modules",
  "Tests cover a few shadowing patterns; resolution errors need particular nestings and orders of same-named declarations.",
  [SEM + "/semantic_index.rs", SEM + "/definition.rs", SEM + "/place.rs"], [("use-def construction", SEM + "/semantic_index.rs"), ("import resolution", SEM + "/semantic_index.rs")],
  "monitor: definition recorded for every identifier compared with reference scoping",
  "Exploration; about 200k name uses per run, a quarter with several same-named declarations.")
P("P12", "fe", "Unused and unreachable warnings are exact",
  "A warning of an unused variable is reported for exactly the variables, parameters, constants and imports that nothing refers to (and that do not start with `_`), once each, at the name; a warning of unreachable code for exactly the statements that follow a statement which never completes, at that statement; no other warning is reported.",
  ["programs"], "every accepted program of one or more modules",
  "Tests check single examples; exactness depends on shadowing, imports, nesting of branches and loops.",
  [V + "/scope_check.rs", V + "/control_flow_validator.rs", SEM + "/semantic_index.rs"], [("unused definitions", V + "/scope_check.rs"), ("termination analysis", V + "/control_flow_validator.rs")],
  "monitor: warnings compared, both ways, with a reference liveness and termination analysis",
  "Exploration of about 6000 programs per run with about 70k warnings.")
P("P13", "fe", "Every mistake is reported, at the mistake",
  "A program that breaks one rule of the language (a type that does not fit its context, an unknown or out-of-scope name, a wrong number of arguments, pattern elements or fields, an out-of-range index or literal, an assignment to a constant or to something that is no place, a missing return value, break or continue outside a loop, a duplicate declaration, an unresolved import, an empty or nested array, a constant array passed by reference, a recursive struct, a type or function used as a value or a value as a type) is rejected: an error of the matching kind is reported at the construct at fault, and, unless the mistake changes what other items mean, no error is reported outside the item that holds it.",
  ["programs"], "every otherwise well-typed program of one or more modules with one mistake anywhere",
  "Tests plant each mistake in one or two positions; a check that is skipped in for-loops, nested patterns, constants, imports or unsuffixed literals is invisible to them.",
  [V + "/type_validator.rs", V + "/scope_check.rs", V + "/structural_validator.rs", V + "/literal_validator.rs", V + "/control_flow_validator.rs"],
  [("validators", V), ("expression types", SEM + "/type_resolution.rs")],
  "monitor: one of 28 kinds of mistake planted in a generated well-typed program; the errors reported compared with the mistake",
  "Exploration of about 6000 planted mistakes per 20 s. Trusts the reference checker to know that the edit is a mistake. An unsuffixed felt literal between 2^31 and 2^32 whose type is only inferred is not generated.")
P("P14", "fe", "A function that can end without returning is refused",
  "A function is accepted only if every path through its body, taking every condition as free, ends in a return (or never ends); a function without loops is refused only if some path does not. break and continue outside a loop are reported, each exactly where it stands and nowhere else. No statement that some path can reach is called unreachable, and every statement after a return (or, in a loop, a break or continue) in its block is.",
  ["programs"], "every function body over return, if/else, blocks, loop, while, for, break and continue",
  "Tests hold a dozen shapes; a path that escapes (a break inside a branch inside a loop, a nested loop, an early continue) needs the right combination.",
  [V + "/control_flow_validator.rs"], [("missing-return, unreachable and loop-exit analysis", V + "/control_flow_validator.rs")],
  "monitor: random control-flow skeletons, verdicts compared with the set of ways every path can end",
  "Exploration of about 8000 modules (20000 functions, a million statements) per 10 s, nesting to depth 6. For loops the property is one-sided, as the analysis is conservative about infinite loops.")
P("P15", "fe", "After any edits the analysis answers as if started afresh",
  "After any sequence of edits to a project (texts changed, modules added, removed or restored, with or without syntax errors or import cycles, observed after every edit or only after some), every answer is the one a fresh analysis of the current texts gives: parse and semantic diagnostics of the project and of each module, the type and target of every expression, and the diagnostics collected by the delta tracker, whether or not anything changed since it was last asked.",
  ["histories"], "every history of edits to a project of one or more modules",
  "Tests perform one or two edits; stale answers need a particular order of edits and queries across modules.",
  [SEM + "/db.rs", SEM + "/delta_diagnostics.rs", SEM + "/semantic_index.rs", "crates/compiler/parser/src/parser.rs"], [("tracked queries", SEM + "/db.rs"), ("DeltaDiagnosticsTracker", SEM + "/delta_diagnostics.rs")],
  "monitor: random edit histories on one database, every answer compared with a fresh database",
  "Exploration of about 4000 project states per 20 s, histories of up to 14 steps of up to 3 edits.")
P("P16", "fe", "Analysis of any program ends, without a panic, in one and the same answer",
  "Semantic analysis of any set of modules that parse, however wrong, ends without panicking; every diagnostic names a file of the project and a range inside its text on character boundaries and can be rendered; and the complete answer (diagnostics with their order, types and targets of all expressions) does not depend on the order in which modules were added or queries asked, nor on the run.",
  ["programs"], "every set of modules in the grammar, however ill-typed",
  "Tests hold well-formed snippets with one error; crashes and order dependence come from errors meeting each other across modules.",
  [SEM + "/db.rs", SEM + "/semantic_index.rs", SEM + "/type_resolution.rs", V + "/validator.rs"], [("queries over possibly broken programs", SEM + "/type_resolution.rs"), ("registry of validators", V + "/validator.rs")],
  "monitor: programs with up to 30 random grafts, panic and hang capture, two analyses in different orders compared",
  "Exploration of about 5000 programs per 20 s, each analysed twice; an answer that takes over 60 s counts as not ending.")

MIR = "crates/compiler/mir/src"
CG = "crates/compiler/codegen/src"
RUN = "crates/runner/src"
COMMON = "crates/common/src"
P("P17", "be", "A compiled program computes what its source means",
  "For every accepted program and every argument list, running the program compiled with the default optimisations returns the value the source means (left-to-right evaluation, felt arithmetic modulo 2^31-1, u32 arithmetic modulo 2^32, arrays as references, tuples and structs as values, functions by name through imports), or stops with an error exactly where the source must (division by zero, failed assertion, cast out of range). A program with such a division or cast of values known at compile time may be refused instead.",
  ["programs"], "every accepted program, split into modules in any way, and every argument list, as long as the program terminates",
  "Execution tests hold about 40 programs; miscompilations come from features meeting each other: phi placement, scalar replacement, slot reuse and calling conventions under particular nestings.",
  [MIR + "/lowering", MIR + "/passes", CG + "/generator.rs", CG + "/builder", RUN + "/vm"],
  [("SSA construction", MIR + "/builder"), ("optimisation pipeline", MIR + "/pipeline.rs"), ("code builder", CG + "/builder"), ("machine", RUN + "/vm")],
  "monitor: generated programs compiled and run on the real machine, every result compared with a reference interpreter of the source",
  "Exploration of about 1700 programs (4500 executions, 0.8 million machine steps) per 20 s. Trusts the reference interpreter. Programs in which a local array outlives its function or loop iteration are not generated (the language keeps arrays in the frame); non-terminating ones are skipped.")
P("P18", "be", "Without optimisations a program computes the same",
  "With optimisations turned off, every accepted program still computes what its source means: no program needs an optimisation pass to be compiled correctly, and none behaves differently with it.",
  ["programs"], "every accepted program, split into modules in any way, and every argument list, as long as the program terminates",
  "The unoptimised path is exercised by few tests, while it decides what every pass starts from.",
  [MIR + "/lowering", CG + "/generator.rs", CG + "/builder.rs", MIR + "/pipeline.rs"],
  [("lowering", MIR + "/lowering"), ("code builder", CG + "/builder"), ("pass selection", MIR + "/pipeline.rs")],
  "monitor: generated programs compiled without optimisations and run on the real machine, results compared with a reference interpreter",
  "As P17, with OptimizationLevel::None.")
P("P19", "be", "Every accepted program compiles to well-formed code",
  "Every program the front end accepts, unless it divides by zero or casts a number that does not fit, known at compile time, compiles, with and without optimisations, without panic or error, to a well-formed program: instructions followed by data words, every instruction with a defined opcode and limbs in range; from every entry point each path stays on instruction boundaries inside its own function; every call leads to the entry of a function; there is one entry point per function of the source, with its parameter and result types; writing the program as JSON and reading it back gives the same program; and compiling the same project again, with its modules listed in another order, gives the same program.",
  ["programs"], "every accepted program of one or more modules",
  "Tests compile some hundred snippets; a lost block, an unresolved or captured label, an unsupported combination or an order that depends on a hash needs the right shape of program.",
  [CG + "/generator.rs", CG + "/layout.rs", CG + "/backend.rs", MIR + "/lowering", COMMON + "/program.rs"],
  [("label resolution and memory layout", CG + "/generator.rs"), ("MIR generation", MIR + "/lowering"), ("program format", COMMON + "/program.rs")],
  "monitor: generated and grafted accepted programs compiled at both levels, output checked by a code walker, round-tripped and recompiled",
  "Exploration of about 1900 programs (11000 functions, 350000 instructions) per 20 s. Functions and variables get odd names, the names of generated labels among them.")
P("P20", "be", "The machine executes the instruction set as documented",
  "From any program (code and data words), entry point and arguments, the virtual machine goes through exactly the states (pc, fp) the instruction set defines, reads and writes exactly the cells it defines in its order with its values, ends with the memory it defines, prints the values it defines, and reports an error at exactly the steps that cannot execute (unknown opcode, address beyond the memory, a non-base value read as a number, u32 limbs out of range, division by zero, failed assertion), without panicking.",
  ["programs", "inputs"], "every sequence of instructions, initial memory and arguments; execution of words outside the program is left open",
  "Instruction tests run each opcode on a few operands in isolation; aliasing operands, frame and address wrap-around, limbs that are no u32 and sequences that overwrite each other are combinations.",
  [RUN + "/vm/mod.rs", RUN + "/vm/instructions", RUN + "/memory", COMMON + "/instruction.rs"],
  [("instruction dispatch", RUN + "/vm/instructions/mod.rs"), ("memory", RUN + "/memory"), ("main loop", RUN + "/vm/mod.rs")],
  "monitor: lockstep comparison of the real machine with a shadow machine written from the documented instruction set",
  "Exploration of about 40000 raw instruction sequences and 1000 compiled programs per 20 s, all 37 instructions and 8 kinds of errors executed.")
P("P21", "be", "What a run leaves on record is what happened",
  "A run of a compiled program leaves a faithful record: its segments hold every state and every memory access once and in order, each segment starts in the state and with the memory the one before ended with, splitting by step limit changes nothing else, the trace and memory files written to any path read back as exactly that record, and the public address ranges are exactly the cells of the program, of the arguments and of the returned values.",
  ["programs", "inputs", "histories"], "every program, arguments, step limit and file path",
  "The record is what gets proved; tests check sizes of the files of two programs and a single segment boundary.",
  [RUN + "/lib.rs", RUN + "/vm/mod.rs", COMMON + "/execution.rs"],
  [("segments", RUN + "/vm/mod.rs"), ("public address ranges", RUN + "/lib.rs"), ("binary trace writers", RUN + "/vm/mod.rs")],
  "monitor: recorded segments and files of real runs compared with a shadow machine and with the same run under other step limits",
  "Exploration of about 5000 runs per 30 s; file names with dots, blanks and none.")
P("P22", "be", "No step of a compiled program reads a cell twice",
  "In every run of every compiled program each executed step reads each memory cell at most once through its operands (the documented requirement of the prover, which the code generator's duplicate-operand pass is there to establish), while the program still computes the same.",
  ["programs", "inputs"], "every compilable program, optimised or not, on every input",
  "The pass's tests list a few instructions by hand; which operands coincide depends on the whole optimisation pipeline and, for pointers, on run-time values.",
  ["crates/compiler/codegen/src/passes/mod.rs"],
  [("duplicate operand removal", "crates/compiler/codegen/src/passes/mod.rs")],
  "monitor: shadow machine that records the operand cells of each step of real runs",
  "Exploration of about 1500 programs per 30 s. Reads that coincide because a pointer is followed to the step's own operand are counted by cell as well.")
P("P23", "pv", "The prover's input is a consistent account of the run",
  "From the segments of any run the prover's adapter makes an input that accounts for it exactly: every step once, filed under its opcode with its registers, clock, instruction and accesses; every use of a memory cell consumes the value and clock its last use (or the initial memory, or a clock update) left and leaves its own, so that all uses, the initial and final memory, the public data and the clock updates cancel out; clock differences fit the range check; the memory trees hash bottom-up to the committed roots, every node used as often as it is produced; consecutive segments commit to the same memory; and the adapter's file readers read back what the runner wrote.",
  ["programs", "inputs", "histories"], "every run without data accesses to its own instructions, in segments of any length",
  "Tests drive single functions with hand-made values; imbalances need overwritten cells, long gaps between uses, public and fresh cells, and segment boundaries, and show only as an unprovable run.",
  ["crates/prover/src/adapter/mod.rs", "crates/prover/src/adapter/memory.rs", "crates/prover/src/adapter/merkle.rs", "crates/prover/src/adapter/io.rs"],
  [("bundles and memory accounting", "crates/prover/src/adapter/memory.rs"), ("memory commitments", "crates/prover/src/adapter/merkle.rs"), ("file readers", "crates/prover/src/adapter/io.rs")],
  "monitor: balance of all memory and tree entries of the prover inputs of real runs, checked against the log of the run",
  "Exploration of raw and compiled programs, with step limits from 1; a few runs of millions of steps exercise clock updates. The real hash (zkhash) cannot be built offline: a stand-in hash takes its place, so the hash function itself is not covered. The initial root of continuation segments that touch new cells is a listed finding.")
P("P24", "be", "Programs and instructions survive every encoding",
  "Every instruction has one encoding that all its forms agree on: converted to base words, to memory words (padded with zeros), or to JSON and back it is the same instruction, its declared size, word count and number of memory accesses are those of the instruction set; words or texts that are no instruction (unknown opcode, other operand count, no hexadecimal number) are refused with an error. Every program written to JSON reads back as the same program, and is loaded into memory as exactly its words; a truncated file is refused.",
  ["programs", "inputs"], "every instruction with every operand, every program with any entry points, names and metadata",
  "Tests convert a few instructions and one program; sizes are tables indexed by opcode and the decoder is generated per variant.",
  [COMMON + "/instruction.rs", COMMON + "/program.rs", RUN + "/memory/mod.rs"],
  [("instruction table and codecs", COMMON + "/instruction.rs"), ("program format", COMMON + "/program.rs"), ("loading", RUN + "/vm/mod.rs")],
  "monitor: encode/decode of generated instructions and programs compared with an independent instruction table",
  "Exploration of about 1.5 million instructions and 80000 programs per 8 s. The JSON library of the runner binary (sonic-rs) is not available offline; serde_json takes its place.")
P("P25", "be", "Arguments and results cross the border unchanged, or are refused",
  "An argument text in the documented grammar denotes exactly one value and every other text is refused with an error. An argument list that fits the parameter types is laid out in memory as the calling convention says, arrays and what pointers point to in cells of their own, is covered by the public input range, and a value returned unchanged is decoded as exactly that value; an argument list that does not fit, and returned cells that are no value of the return type, are refused with the fitting error, without a panic.",
  ["inputs"], "every parameter type, value and text of bounded nesting depth",
  "Tests pass scalars and a few flat aggregates; nesting of arrays, pointers, tuples and structs and their layouts multiply.",
  [COMMON + "/abi_codec.rs", COMMON + "/program.rs", RUN + "/lib.rs"],
  [("argument grammar", COMMON + "/abi_codec.rs"), ("argument layout, result decoding", RUN + "/lib.rs")],
  "monitor: arguments of random types passed through an identity program; memory, results and errors compared with an independent model",
  "Exploration of about 100000 argument lists per second. Texts nested deeper than the stack of the recursive parser allows are outside the property.")
P("P26", "be", "A project is compiled as exactly the files it consists of",
  "From any path inside a project (its root, a directory or file below it, absolute or relative) the same project is found: the one of the nearest manifest upwards, with the name and entry file the manifest gives. Its sources are exactly the `.cm` files under `src`, each under the module name of its place, with its text as it is on disk; compiling it gives the same code, or the same diagnostics about the same files, as handing those modules over in memory, whatever else lies around. A `.cm` file outside every project is a program of its own, whatever its name. A workspace lists every project with a readable manifest. A project that cannot be read (no or a bad manifest, unreadable sources, a missing entry file) ends in an error, never in a panic or another program.",
  ["inputs", "histories"], "every directory tree, file name and start path",
  "Tests have one flat project with a fixed name; directories named like files, projects inside projects, odd names and relative paths are what breaks.",
  ["crates/compiler/cairo-m-project/src/discovery.rs", "crates/compiler/cairo-m-project/src/model.rs", "crates/compiler/cairo-m-project/src/manifest.rs", "crates/compiler/semantic/src/db.rs", "crates/compiler/src/lib.rs"],
  [("discovery", "crates/compiler/cairo-m-project/src/discovery.rs"), ("source files and module names", "crates/compiler/cairo-m-project/src/model.rs"), ("reading into a crate", "crates/compiler/semantic/src/db.rs")],
  "monitor: projects written to a scratch directory, found and compiled, compared with the files written and with an in-memory compilation",
  "Exploration of about 1300 projects per 40 s. Sources hidden by .gitignore or a leading dot, entry files nested below `src`, and standalone files inside a directory called `src` are outside the property.")
P("P27", "be", "A new project is complete, or nothing was done",
  "`cargo cairo-m init` with any name or path either ends in an error, leaving every file as it was, or makes one new directory that is a complete project: exactly the template's files, a manifest with the project's name that is read back and finds the project from its directory, a Cargo manifest that cargo reads, and a source that compiles and computes the Fibonacci numbers. Nothing that existed is changed. A name of letters, digits, `-` and `_` that starts with a letter or `_` is never refused where the directory can be made.",
  ["inputs"], "every name and path, in every directory",
  "The tests have no name with a quote, a digit in front, a path ending in `..`, or existing files around.",
  ["crates/cargo-cairo-m/src/main.rs", "crates/compiler/cairo-m-project/src/manifest.rs"],
  [("project creation", "crates/cargo-cairo-m/src/main.rs")],
  "monitor: the real tool run in scratch directories; all files before and after compared, the result read by cargo and the compiler",
  "Exploration of about 1000 names per 20 s, each in a scratch directory of its own.")
P("P28", "be", "The command-line tools do what the libraries do, and say so",
  "The compiler tool ends with 0 exactly if the project compiles; then the output file, or standard output, is exactly the program the library makes at the chosen optimisation level, and every warning is shown; otherwise it ends with 1, shows every error, and writes no program. The runner ends with 0 exactly if the run succeeds, printing the returned values; otherwise it ends with 1 and shows the error. Files that are no program, wrong arguments and unwritable outputs end in an error, never in a panic; no tool changes its inputs.",
  ["inputs"], "every project, program, argument list and combination of options",
  "Neither tool has a test; their contract is the exit code and the bytes written.",
  ["crates/compiler/src/main.rs", "crates/runner/src/main.rs", "crates/common/src/abi_codec.rs"],
  [("compiler tool", "crates/compiler/src/main.rs"), ("runner tool", "crates/runner/src/main.rs")],
  "monitor: the real tools run as processes; exit codes, output and files compared with the libraries called in process",
  "Exploration of about 800 invocations per 20 s. Verbose mode is outside the property.")
P("P29", "be", "A reported problem is shown where it is",
  "Every error and warning names a file of the project and a range that lies in that file's text; the name its message quotes stands there; a note about a declaration (a constant, a parameter's type, a function's result, a field) lies on that declaration. What is shown to the user of it never ends in a panic, and has the code, the kind, the message, the file, the line and the column of the problem and its source line, and likewise each note; colours change nothing else; several problems are shown one after the other, each with the text of its own file; and the compiler tool prints exactly the problems that were found.",
  ["inputs"], "every project with problems, with any layout and any characters in it",
  "The tests compare a few rendered messages of one-line files; offsets, characters of several bytes, CRLF, and problems that involve two files are what breaks positions.",
  ["crates/compiler/diagnostics/src/reporting.rs", "crates/compiler/diagnostics/src/diagnostics.rs", "crates/compiler/semantic/src/validation/type_validator.rs", "crates/compiler/src/lib.rs", "crates/compiler/src/main.rs"],
  [("build_diagnostic_message", "crates/compiler/diagnostics/src/reporting.rs"), ("notes", "crates/compiler/semantic/src/validation/type_validator.rs"), ("format_diagnostics_multi_file", "crates/compiler/src/lib.rs")],
  "monitor: an oracle over every diagnostic of real compilations and its rendered text, which is read back and compared with positions counted independently",
  "Exploration of about 3 000 projects and 25 000 problems per 20 s. Line ends other than \\n and \\r\\n are left out of the line and column comparison. Two known findings: notes of imported constants and of omitted results (existing snapshots pin both).")
