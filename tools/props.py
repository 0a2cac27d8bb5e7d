LIB = "Generated-input search only: it shows no counterexample among the explored cases. "
T = "The 13 existing tests analyse a dozen fixed short sources"

prop("P01", "Analysis and position queries accept any text and stay inside it",
 "For every source text, analysing it ends without crashing, and every diagnostic, token, symbol, reference and required-version it returns has a line and column range (in UTF-16 code units) that lies inside that text. Position queries (documentation, argument, symbols, references, inlay hints) on the result also end without crashing for every line and column, including blank lines and positions outside the text.",
 ["inputs"], "every byte string as a source, and every line/column pair as a query position",
 T + " and query three positions; none is malformed UTF-8, unterminated, blank, non-ASCII or out of range.",
 ["lexer.go", "process.go", "linter.go", "symbols.go"],
 [("Lexer.Scan", "lexer.go"), ("Process, recover per statement", "process.go"), ("DocAt/ArgAt/SymByName/InlayHints", "process.go")],
 "property-based fuzzing of raw, fragment, mutated and structured sources with an in-bounds invariant",
 LIB + "Crashes, hangs (CPU time, confirmed alone) and memory blow-up count as violations. Trusts the harness's own splitting of text into lines and UTF-16 units.",
 ["teal.Process", "ProcessResult methods"])

prop("P02", "Tokens cover exactly the source text, in order",
 "For every source text, the tokens produced are exactly the values, comments and line ends of the text, in order, each reporting the text it stands for (escaped quotes unescaped) and the line and UTF-16 column range where that text is. String literals keep spaces, separators, comment marks and escapes inside them, end at their closing quote or at the line end, and base64 data that contains slashes is not taken for a comment. A string that is not closed is reported as a syntax error within its own text.",
 ["inputs"], "every source text: quotes, escapes, comments, separators, tabs, CR LF, non-ASCII",
 T + " with the lexer; combinations of quotes, escapes, slashes and non-ASCII text on the same line are not reached.",
 ["lexer.go"], [("Lexer.Scan/Curr", "lexer.go")],
 "differential testing against an independent reference lexer",
 LIB + "Trusts the reference lexer in harness/ref.go.", ["teal.Lexer", "ProcessResult.Tokens"])

prop("P03", "One statement per line; an error never disturbs other lines",
 "Analysing a program yields exactly one statement for each of its lines, in order: the line's instruction, label, comment or pragma if it is well formed and a placeholder if it is empty or malformed. A malformed line yields a report for that line only: replacing it by another malformed line, or by an empty one, does not change the statements and parse reports of any other line.",
 ["programs"], "all programs mixing valid, unknown, incomplete and over-long lines",
 T + "; none mixes malformed and valid lines and looks at the rest of the listing.",
 ["process.go"], [("Process loop and recover", "process.go"), ("parserContext.emit", "process.go")],
 "differential testing against a reference reader, and metamorphic line replacement",
 LIB + "Trusts the reference reader in harness/ref.go.", ["ProcessResult.Listing", "ProcessResult.Diagnostics"])

prop("P04", "Literals denote exactly the value they spell",
 "Every integer, byte-string, address and method-signature literal is accepted exactly when it is well formed for its notation (decimal, 0x, 0b, 0o, named constants; quoted with escapes, 0x, base32 and base64 in all their spellings; checksummed address), and then denotes exactly the value it spells, in every instruction that takes it. A malformed or out-of-range literal is reported at its own position.",
 ["inputs"], "every literal text in every literal position",
 T + "; they decode a handful of literals and compare no value.",
 ["parser.go", "process.go", "go_algorand.go"], [("parseBytes/readInt/readConstInt", "process.go, parser.go"), ("parseStringLiteral/base32DecodeAnyPadding", "go_algorand.go")],
 "value-first generation with random notation and mutation, against reference decoders",
 LIB + "Trusts the reference decoders in harness/ref.go; for surplus base32 padding the Go library's reading is taken as right.", ["ProcessResult.Listing"])

prop("P05", "Opcodes are reported unavailable exactly per version and mode",
 "An instruction is reported as unavailable, at its own line and with the version it needs, exactly when the language specification does not provide it for the program's declared version and mode (application or logic signature); a program without version pragma is version 1. The set of opcodes known to the analysis is the specification's plus the assembler's pseudo-opcodes, and required versions returned with the result agree with the reports.",
 ["inputs", "programs", "configurations"], "every opcode x version x mode, and programs that switch version and mode",
 T + "; they use a few opcodes at one version.",
 ["process.go", "linter.go", "langspec.go"], [("minVersion/modeMinVersion", "process.go"), ("LINT0007/LINT0008", "linter.go")],
 "exhaustive opcode x version x mode enumeration and random programs against a reference table",
 LIB + "The opcode/version/mode matrix itself is enumerated completely. The reference table was transcribed from langspec.json and corrected by hand.", ["ProcessResult.Diagnostics", "ProcessResult.Versions", "teal.Ops"])

prop("P06", "Immediates and named fields are accepted exactly where they are valid",
 "Each instruction accepts exactly its immediates: their number, kind and range (8-bit signed and unsigned, 64-bit, labels, bytes, fields), optional ones included, and anything missing, surplus or out of range is reported at the offending value. A named field is accepted exactly where its group is expected, at versions that have it, for arrays only where an array is indexed, and denotes the same field as its number.",
 ["inputs"], "every opcode with every immediate list; every field name x opcode x version",
 T + "; they use about ten opcodes and two field names.",
 ["process.go", "parser.go", "go_algorand.go"], [("op* readers", "process.go"), ("read*Field", "parser.go")],
 "exhaustive opcode x field x version enumeration and mutated immediate lists against a reference grammar",
 LIB + "The field matrix is enumerated completely. A number that denotes no usable field is accepted by the analysis and not judged here.", ["ProcessResult.Diagnostics", "ProcessResult.Listing"])

prop("P07", "Printed programs read back as the same program",
 "Printing a valid program (analysed from text or built with the builder functions) gives one line per statement that analyses again to the same statements with the same values, for every opcode, immediate and literal; printing is therefore stable from the first print on.",
 ["programs"], "every valid instruction in every notation, and every program of them; every builder expression",
 T + "; no test prints a program and reads it back.",
 ["expr.go", "compiler.go", "process.go"], [("String methods", "expr.go"), ("Listing.String", "compiler.go")],
 "round-trip testing with the reference reader as second reader",
 LIB + "Fields given as numbers that denote no usable field are outside the domain.", ["Listing.String", "Compile"])

prop("P08", "Labels: duplicate, unused and undefined labels are reported exactly",
 "For every program, the label reports are exactly these, each at its own line and under its own rule: every definition of a name that is defined more than once, every label that no instruction refers to (also offered for removal), and every label operand that no label defines, named in the report.",
 ["programs"], "all programs over labels, branches, switch, match and subroutine calls",
 T + "; linter behaviour is sampled on a few programs with one or two labels.",
 ["linter.go", "process.go"], [("Linter rules LINT0001, LINT0002, LINT0005", "linter.go")],
 "differential testing against a reference linter on generated flow graphs",
 LIB + "Trusts the reference linter in harness/ref.go.", ["ProcessResult.Diagnostics", "ProcessResult.Redundants"])

prop("P09", "Control flow: unreachable code, useless branches, loops, late pragmas",
 "For every program, the flow reports are exactly these, each at its own line: every instruction after an unconditional branch, return or err with no referenced label in between; every unconditional branch whose target is the next label with no instruction in between (also offered for removal); every unconditional backward branch whose loop body has no return, err, retsub or branch leaving it; and every version pragma preceded by an instruction or another version pragma. Comments, blank and malformed lines never change these reports, and linting a listing directly gives the same ones.",
 ["programs"], "all programs over branches, labels, terminators, comments and pragmas",
 T + "; comments, blank and malformed lines between the statements concerned are not varied.",
 ["linter.go"], [("Linter rules LINT0003, LINT0004, LINT0005, LINT0006", "linter.go")],
 "differential testing against a reference linter on generated flow graphs",
 LIB + "Trusts the reference linter in harness/ref.go.", ["ProcessResult.Diagnostics", "ProcessResult.Redundants"])

prop("P10", "The symbol index is complete and exact",
 "For every program, the symbol table holds exactly its label definitions with name, position and preceding comments as documentation; the references are exactly the label operands of its instructions, split into resolved and missing, with correct counts; looking up a symbol or reference by name or by any position inside its text finds it, and anywhere else finds nothing.",
 ["programs", "inputs"], "all programs, all names and all positions",
 T + "; one test looks up a symbol at a few positions.",
 ["symbols.go", "process.go"], [("Symbol collection in Process", "process.go"), ("SymByName/SymOrRefAt/RefCounts", "process.go, symbols.go")],
 "model-based testing: reference index queried at every name and position",
 LIB + "Trusts the reference index in harness/ref.go.", ["ProcessResult.Symbols", "SymbolRefs", "MissRefs", "RefCounts"])

W = "Driven through the language server's wire protocol in process. "

prop("P11", "Rename, definition and highlight act on exactly the label's occurrences",
 "In the language server, at every position of every document: inside a label's text (definition or operand), definition leads to the label's definition, highlight marks its occurrences, and rename offers that label's text and, applied, replaces every definition and every operand of that name and nothing else, leaving the rest of the text byte for byte unchanged. Elsewhere nothing is offered. A rename to an unused name therefore keeps the program's structure: the same references resolve.",
 ["programs", "inputs"], "every document (non-ASCII text, CR LF, malformed lines) and every position",
 "No existing test drives the language server.",
 ["lsp/lsp.go", "process.go", "symbols.go"], [("doRename/prepareRename/definition/documentHighlight handlers", "lsp/lsp.go")],
 "model-based testing of server answers: edits are applied to the text and compared with a reference occurrence list",
 LIB + W, ["LSP textDocument/rename, prepareRename, definition, documentHighlight"])

prop("P12", "Quick fixes and commands change exactly what they promise",
 "Every edit the language server offers (create a missing label, remove redundant code, rewrite a value in another notation) or performs as a command (insert/replace version pragma, create label, remove line) fits the document and, applied, does what its title says and nothing else: a created label makes that reference resolve, a removed line disappears together with its diagnostic, a rewritten value denotes the same value, and all other lines stay as they were. The title of a fix names the label, version or value it brings. A fix is offered exactly for the diagnostics, missing labels and rewritable values that the requested range touches.",
 ["programs", "inputs"], "every document and every requested range; every command with every document",
 "No existing test drives the language server.",
 ["lsp/lsp.go", "linter.go", "range.go"], [("codeAction handler", "lsp/lsp.go"), ("executeCommand handlers", "lsp/lsp.go"), ("Touches", "range.go")],
 "metamorphic testing: each offered edit is applied and the result compared with the reference reading of both texts",
 LIB + W, ["LSP textDocument/codeAction, workspace/executeCommand, workspace/applyEdit"])

prop("P13", "Semantic tokens describe the document exactly",
 "For every document, the semantic tokens decode to tokens in document order that do not overlap and lie inside the text in UTF-16 units, each covering exactly one lexical element and classified by its role (instruction, label operand or definition, number, string, field or constant name, pragma, comment); each classified element appears once.",
 ["inputs"], "every document",
 "No existing test drives the language server.",
 ["lsp/lsp.go", "process.go", "lexer.go"], [("semanticTokens/full handler, sort and delta coding", "lsp/lsp.go")],
 "differential testing of the decoded token stream against the reference reader",
 LIB + W, ["LSP textDocument/semanticTokens/full"])

prop("P14", "The language server answers every request once and survives any input",
 "For every sequence of messages, in any split of the byte stream: each request gets exactly one answer that carries its id (a result, or an error when the method is unknown, the parameters are unusable or the document is not open), notifications get none, every frame written has a correct length header, diagnostics published after an open or change belong to that document's latest text, malformed messages do not stop the session, exit ends it, and it ends when its input ends or fails.",
 ["histories", "faults", "inputs"], "all message sequences, malformed messages, read faults and stream splits",
 "No existing test drives the language server.",
 ["lsp/lsp.go", "cmd/tealsp/main.go"], [("lsp.Run message loop", "lsp/lsp.go"), ("header reading", "lsp/lsp.go")],
 "stateful fuzzing of sessions with a protocol monitor; injected read faults",
 LIB + W + "A session that does not end is detected by CPU time and by a bounded number of further reads.", ["LSP wire output"])

prop("P15", "Server answers depend only on the document's latest text",
 "Whatever was opened, edited, closed or asked before, the language server's answer to a request about an open document is the answer a fresh server gives after opening that document's latest text; other documents never influence it, and a query never changes the answer to another one.",
 ["histories"], "all histories of open, change, close and queries over several documents",
 "No existing test drives the language server.",
 ["lsp/lsp.go"], [("document store, didOpen/didChange/didClose", "lsp/lsp.go")],
 "stateful differential testing: session history versus fresh server",
 LIB + W + "Completion lists are compared as sets.", ["LSP answers"])

prop("P16", "Completion, hover and signature help match the language",
 "At every position of every document, completion of an opcode offers exactly the opcodes available in the document's version and mode, completion of a value offers exactly the names valid there (fields, constants, labels) with their own values and notes (labels with their declared arguments and results and the remarks above them), hover documents the instruction, field or constant under the cursor with that item's own documentation, and signature help describes the instruction of that line with its immediates and the one at the cursor as the active parameter. Accepting an offered item gives text that analyses without a report about it.",
 ["programs", "inputs"], "every opcode, field and version; every document position",
 "No existing test drives the language server.",
 ["lsp/lsp.go", "process.go", "langspec.go"], [("completion/hover/signatureHelp handlers", "lsp/lsp.go"), ("DocAt/ArgAt/OpArgVals", "process.go")],
 "differential testing against the reference tables and the language specification",
 LIB + W + "Documentation is compared with the language specification's text.", ["LSP textDocument/completion, hover, signatureHelp"])

prop("P17", "Editor diagnostics, outline, lenses and hints reflect the analysis",
 "For every document, the diagnostics published are exactly the analysis's reports with their ranges, severities and messages; the outline lists exactly the labels; reference lenses stand at each label with the true number of its references; and inlay hints inside the requested range show, next to exactly the values that have one, the readable value of byte literals and the names of numeric fields.",
 ["programs", "inputs"], "every document and every requested range",
 "No existing test drives the language server.",
 ["lsp/lsp.go", "process.go"], [("publishDiagnostics, documentSymbol, codeLens, inlayHint handlers", "lsp/lsp.go"), ("InlayHints", "process.go")],
 "differential testing against the reference reader and linter",
 LIB + W, ["LSP publishDiagnostics, documentSymbol, codeLens, inlayHint"])

prop("P18", "Formatting keeps the program and is stable",
 "For every document, formatting either fails with an error and no edit, or yields edits after which the document has the same instructions, labels, values and comments in the same order, with the same version and mode; only blank lines and blanks around tokens change. Formatting the result again changes nothing.",
 ["programs"], "every document",
 "No existing test drives the formatter.",
 ["lsp/lsp.go"], [("textDocument/formatting handler", "lsp/lsp.go")],
 "metamorphic testing: token sequence before and after, idempotence",
 LIB + W + "Documents with lines of 60000 bytes and more may be refused.", ["LSP textDocument/formatting"])

prop("P19", "The debugger executes every instruction with its own stack effect",
 "For every instruction with every field, one step of the debugger's virtual machine takes exactly the values the language specification says the instruction takes, fails when there are too few of them or one has the wrong type, and otherwise leaves the values the specification says it leaves, in the specified order and with the specified types; constants keep the value they were pushed with through dup, swap, dig, bury, cover, uncover, scratch slots and frames; and the machine then stands at the next instruction.",
 ["programs", "inputs"], "every opcode and field, every stack, every straight-line program",
 "The existing tests run two fixed programs without looking at the stack.",
 ["vm.go", "expr.go"], [("Execute methods", "expr.go"), ("Vm.Step, VmBranch push/pop", "vm.go")],
 "model-based testing: lockstep with a reference machine, every opcode enumerated",
 LIB + "Access below a frame's arguments and proto away from a subroutine's start are not judged.", ["Vm.Step/Branches"])

prop("P20", "The debugger explores branches, calls and loops exactly",
 "For every program and every order of stepping its branches: a conditional branch, switch or match goes on at the following line and starts one further branch for each target, with the same stack, scratch space, call frames and trace of executed instructions as its origin and independent of it afterwards; an unconditional branch goes to its label; callsub calls and retsub returns to the instruction after the call with exactly the declared results; retsub without a call fails; a program that returns or runs off its end ends that branch only, and the machine then goes on with another live branch until none is left.",
 ["programs", "schedules", "histories"], "every program and every interleaving of its branches",
 "The existing tests run two fixed programs without looking at the branches.",
 ["vm.go", "expr.go"], [("branch forking, Vm.Switch, Vm.Step", "vm.go"), ("callsub/retsub/bz/bnz/switch/match Execute", "expr.go")],
 "stateful model-based testing: lockstep with a reference machine under random branch switching",
 LIB + "Jumps to missing labels are not judged; the number of branches is bounded.", ["Vm.Step/Switch/Branches"])

prop("P21", "The debugger charges each instruction its cost",
 "For every program, each executed instruction reduces its branch's budget by that instruction's cost in the program's version (dearer for hashing, signature, big number and elliptic curve opcodes, by the chosen curve or the value's length where the cost depends on it); a forked branch inherits the remaining budget and spends it alone, and a branch ends without executing an instruction exactly when its remaining budget does not suffice for it.",
 ["programs", "histories"], "every opcode, version, curve and program",
 "No existing test looks at budgets.",
 ["vm.go", "expr.go"], [("Cost methods", "expr.go"), ("budget in Vm.Step", "vm.go")],
 "model-based testing against a reference cost table",
 LIB, ["VmBranch.Budget, Vm.Error"])

prop("P22", "Breakpoints stop execution exactly where they are set",
 "For every program and every set of breakpoint lines, a breakpoint is confirmed exactly when its line holds an instruction; running stops at the first step by which a branch comes to a line with a confirmed breakpoint, in the state stepping would reach there, reports exactly the branches and lines that came to a breakpoint by that step, and otherwise runs until no live branch is left or an error occurs. Setting breakpoints replaces the earlier ones.",
 ["programs", "histories"], "every program, breakpoint set and sequence of run and step",
 "No existing test sets breakpoints.",
 ["vm.go"], [("SetBreakpoints, Run, Triggered", "vm.go")],
 "differential testing: run versus single-stepped twin",
 LIB, ["Vm.SetBreakpoints/Run/Triggered"])

prop("P24", "Optimizing a listing keeps what the program does",
 "For every program with unambiguous labels, read from text or built in Go, the optimized listing executes the same instructions in the same order as the original, apart from plain jumps, under the same branch decisions, from the start to the same end; it is not longer, and the listing it was made from is unchanged.",
 ["programs"], "every program and every sequence of branch decisions",
 "No existing test runs the optimizer.",
 ["compiler.go"], [("Listing.Optimize and its passes", "compiler.go")],
 "metamorphic testing: original and optimized program are interpreted with the same random decisions",
 LIB, ["Listing.Optimize"])

prop("P23", "Debugger sessions answer every request and show the machine as it is",
 "For every sequence of debugger requests: each request gets exactly one response with its sequence number and command (a failure when it is unknown, malformed, comes before a launch it needs, or launches a program that cannot be read), written messages are well framed and numbered in increasing order, and every stop, thread, stack frame, scope, variable, disassembly and breakpoint reported is that of the machine, which stops as a whole, after exactly the steps and runs requested so far, with line and column numbering as the client asked, paging honoured, and breakpoints kept per file and before a launch. Nothing but such messages is written, no file is created unasked, and the session ends when its input ends or fails.",
 ["histories", "faults", "inputs"], "all request sequences, malformed requests, read faults and stream splits",
 "No existing test drives the debug adapter.",
 ["dbg/dbg.go", "cmd/tealdbg/main.go", "vm.go"], [("debug adapter loop and request handlers", "dbg/dbg.go"), ("command line tool", "cmd/tealdbg/main.go")],
 "stateful model-based testing: interactive sessions judged against a twin machine stepped the same way; injected read faults",
 LIB + "Driven through the adapter's wire protocol in process and through the tool. Trusts the library's own machine as the twin (decided by P19-P22). Frame ids, ended threads' frames and continue before launch are not judged.", ["DAP wire output"])

prop("P25", "Programs built in Go print as exactly the instructions they name",
 "For every expression of the builder API (every instruction, also built from its exported type, the exported field and number constants, scratch and frame access, labels and branches, assertions, inner transactions, match over labels, blocks, named blocks, functions and calls), in any nesting, compiling gives exactly the instructions it stands for, in order, with the given values, labels and fields; compiling a program again, or printing it directly, gives the same text.",
 ["programs"], "every program that can be built with the exported constructors",
 "One existing test prints a single program; README shows another.",
 ["compiler.go", "expr.go"], [("Compile, Program.String", "compiler.go"), ("constructors and expr types", "expr.go")],
 "model-based testing: random builder expressions against the instructions they stand for",
 LIB + "The expected text of each constructor is a table in harness/builders.go and p_tools.go.", ["Compile", "Program.String"])

prop("P26", "The SARIF report holds exactly the findings of every TEAL file",
 "For every directory tree (or single file), the tealsarif tool writes one valid SARIF 2.1.0 document whose artifacts are exactly the .teal files below the path (or the file given), and whose results are exactly the analysis's reports of each of those files, each with its message, level, rule, and one-based position, referring to its own artifact and to a listed rule. A path that does not exist makes it fail.",
 ["inputs", "configurations"], "every directory tree and file content",
 "No existing test runs the tool.",
 ["cmd/tealsarif/main.go", "internal/sarif/sarif.go"], [("tealsarif run", "cmd/tealsarif/main.go")],
 "differential testing: tool output versus analysis of each file",
 LIB + "Trusts the library's analysis of each file (decided by P01-P10).", ["tealsarif standard output and exit code"])

prop("P27", "Analysis is a pure function of the text",
 "Analysing a text gives the same complete result (reports, tokens, statements, symbols, references, counts, versions, redundancies, in the same order) however often, after whatever other text and at the same time as whatever other analyses it runs; and a result never changes by being queried, printed, linted or executed.",
 ["inputs", "schedules", "histories"], "all texts, histories and interleavings of analyses",
 T + " once each.",
 ["process.go", "linter.go", "lexer.go"], [("Process", "process.go"), ("package-level tables", "process.go, langspec.go")],
 "metamorphic testing: repeated, interleaved and concurrent analyses with full result comparison",
 LIB, ["teal.Process"])

prop("P28", "Blanks, line ends, blank lines and comments never change the meaning",
 "Rewriting a program with other blanks or tabs between and around its tokens, other line ends (LF or CR LF), additional blank and comment lines and additional trailing comments gives the same statements, version, mode and labels, and the same reports (rule, severity, position), each moved to where its text went.",
 ["programs"], "every program and every rewriting of its layout",
 T + "; no test varies the layout.",
 ["lexer.go", "process.go", "linter.go"], [("Lexer.Scan", "lexer.go"), ("linter skipping of Nop lines", "linter.go")],
 "metamorphic testing: result compared through the line and token mapping of a random relayout",
 LIB + "Lines that do not lex are left as they are.", ["teal.Process"])

prop("P29", "The server serves what it announces and its options switch only their features",
 "For every initialization options, the capabilities announced are exactly those served: whole-text synchronisation, every query announced is answered, semantic tokens are announced exactly when switched on and inlay hints when named or decoded ones are, every command used by an offered action is announced and executed; an option changes the answers of its own feature (reference lenses, named hints, decoded hints, semantic tokens) and no other answer. The tealsp tool behaves over standard streams or a TCP connection, with or without a debug file, and as debugger, exactly as the library, exits with 0 after shutdown and 1 without, and creates no file but the debug file asked for.",
 ["configurations", "histories"], "every combination of options, every document and session",
 "No existing test drives the language server or its tool.",
 ["lsp/lsp.go", "cmd/tealsp/main.go"], [("initialize handler", "lsp/lsp.go"), ("runLsp/runDbg", "cmd/tealsp/main.go")],
 "differential testing: announced versus served, with versus without options, tool versus library",
 LIB + W, ["LSP initialize", "tealsp process"])
