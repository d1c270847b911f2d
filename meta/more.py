prop("C04", "Generated Go parsers compile and agree with the grammar",
 "For every grammar and root rule the code generator emits Go source that compiles with the standard library alone and is the same on every run, whatever the grammar holds (left recursion, prose, undefined references, unrepresentable values, control characters). "
 "For every input the generated Parse reports the same verdict, number of trees, ambiguity flag and a genuine derivation tree as the grammar defines, the same tree as the interpreting engine when there is only one; an exceeded MaxElements is reported as ErrTooLarge, never as a wrong answer.",
 ["programs", "inputs", "configurations"], "every grammar (validated, unvalidated or built as values), root rule, input byte string and element bound",
 "The suite compiles parsers of a few grammars; the generated program differs for each grammar, and its answers for each input.",
 ["codegen.go", "sppf.go", "bsr.go", "cmd/abnf-gen/main.go"],
 [("slot-indexed parser emission and runtime boilerplate", "codegen.go")],
 "property-based testing: random grammars, their generated parsers compiled in batches and run on generated inputs against reference recogniser, derivation counter and tree checker",
 "Sampled grammars and inputs up to 24 bytes; compile and link with the installed Go toolchain.")

prop("C05", "ABNF text is accepted and understood exactly as RFC 5234 and RFC 7405 say",
 "For every byte string, reading it as ABNF succeeds syntactically exactly when it is a rulelist of RFC 5234 (with erratum 3076: elements = alternation *WSP) and RFC 7405: CRLF line ends, comments, continuation lines, blank lines, groups, options, repetition prefixes, %i/%s strings, bin/dec/hex num-vals with series and ranges, prose-vals. "
 "The text then has exactly one derivation, and the resulting grammar holds precisely the rules, alternatives, repetition bounds, string case-sensitivity, numeric values and prose written there, with incremental alternatives appended in order; a malformed text is refused with a ParseError wrapping ErrNoSolutionFound.",
 ["inputs"], "every byte string and option combination",
 "Tests read some dozens of grammars; legal spellings and illegal near misses are unlimited.",
 ["grammar.go", "rules.go", "abnf.go"],
 [("ABNF meta-grammar as data", "rules.go"), ("evaluation of the parse tree into a grammar", "grammar.go")],
 "property-based testing: random spellings of random grammars, edits of them and token soup against an independent hand-written ABNF reader",
 "Texts up to 700 bytes; trusts the harness's reader.")

prop("C06", "Rule definitions and semantic checks refuse exactly what they must",
 "Reading definitions refuses with the matching typed error naming the rule: a second definition of a rule (names are case-insensitive) with ErrDuplicatedRule, an incremental definition of an undefined rule with ErrRuleNotFound, and any definition of a core rule with ErrCoreRuleModify unless redefinition is enabled, in which case the new or extended rule applies to that grammar only and other grammars keep the RFC 5234 core rules. "
 "Validation (on by default, SemvalABNF) refuses exactly the grammars with an undefined dependency, a repetition with min above max, or a numeral above U+10FFFF in any base, at any nesting depth; everything else is accepted, and with validation off nothing of this is refused.",
 ["inputs", "configurations"], "every list of definitions and every option combination",
 "Tests pin one or two examples per refusal; flaws can sit at any depth, in any base, under any spelling and in any order.",
 ["grammar.go", "utils.go", "option.go", "errors.go"],
 [("definition folding", "grammar.go"), ("semantic validation", "grammar.go"), ("numeral bounds", "utils.go")],
 "property-based testing: definition lists with planted flaws under all options against a definition-list interpreter",
 "Up to two planted flaws per list; with several flaws any of their errors is allowed.")

prop("C07", "Printing a grammar and reading it back loses nothing",
 "For every grammar read from ABNF text, String, PrettyPrint and the rules' own String produce legal ABNF that means the same grammar: read back it has the same rules, alternatives, repetition bounds, strings with their case-sensitivity, numeric values, groups, options and prose, and printing that again gives the same lines.",
 ["programs"], "every grammar readable from text, validated or not",
 "The suite round-trips the ABNF grammar itself and a few others; each construct and nesting prints differently.",
 ["abnf.go", "grammar.go"],
 [("String methods of the grammar elements", "abnf.go"), ("Grammar.String and PrettyPrint", "grammar.go")],
 "property-based testing: round trip of random grammars, checked both with the library and with an independent reader",
 "Sampled grammars of up to 4 rules, nesting up to 6.")

prop("C08", "Parse errors point at the furthest position reached",
 "For every rejected input, the parse error's offset is the furthest position any left-to-right reading of a prefix gets to, and Expected lists exactly the terminals that could have continued there. "
 "Line and column are those of the offset, Found describes the byte there or EOF at the end, the bare-LF hint appears exactly when a lone LF stands at the offset, the message carries line, column and offset, and the error wraps ErrNoSolutionFound. An accepted input has no parse error; the same holds for malformed ABNF texts.",
 ["programs", "inputs"], "every grammar of representable terminals, rule and rejected input; every malformed ABNF text",
 "Tests pin three messages; the position depends on every alternative the parser may try.",
 ["sppf.go", "errors.go"],
 [("furthest-failure tracking", "sppf.go"), ("position and description", "errors.go")],
 "property-based testing: rejected inputs of random grammars and edited ABNF texts against a reference set of tried (terminal, position) pairs",
 "Inputs up to 40 bytes, ABNF texts up to 160 bytes.")

prop("C09", "A rule's regular expression matches exactly the rule's language",
 "For every non-recursive rule without prose of a validated grammar, Regex gives an RE2 expression that compiles (as long as nested repetition counts stay within RE2's limit of 1000) and, anchored, matches a UTF-8 text exactly when the rule derives it: case folding is ASCII-only, metacharacters are literal, ranges are clamped to real characters, repetition bounds and precedence of alternation are kept. "
 "A recursive rule gives ErrCyclicRule, a rule with prose ErrHandlingProseVal, an unknown rule ErrRuleNotFound. WithMaxRegexLen is exact: an expression of at most that length is returned unchanged, a longer one is refused with ErrRegexTooLarge.",
 ["programs", "inputs", "configurations"], "every grammar, rule, UTF-8 text and length bound",
 "Tests compare the expressions of some rules on a few words; equality of languages is over all grammars and words.",
 ["regex.go", "dag.go"],
 [("grammar to regular-expression tree, simplification and rendering", "regex.go")],
 "property-based testing: random grammars and words, differential against the reference recogniser",
 "Sampled grammars and words up to 60 bytes; expressions longer than 30000 bytes are skipped.")

prop("C17", "Dependencies and cycles of rules are reported exactly",
 "For every grammar, DependencyGraph lists for each rule (the grammar's own and the core rules they need) exactly the rules its definition names, each once, at any depth and in any letter case, and its Mermaid text has exactly those edges; RuleContainsCycle is true exactly when the rule reaches a rule that depends on itself, directly or through others; IsDAG is true exactly when no rule does. "
 "Undefined references do not disturb this, and an unknown rule is ErrRuleNotFound.",
 ["programs"], "every grammar, validated or not, redefined core rules included",
 "Tests look at four small grammars; cycles can pass through any rule, construct and spelling.",
 ["dag.go"],
 [("Tarjan components over the dependency graph", "dag.go")],
 "property-based testing: random reference graphs of up to 13 rules against depth-first search over the model",
 "Sampled grammars of up to 13 rules.")

prop("C22", "The core rules are those of RFC 5234 Appendix B.1",
 "In every grammar that does not redefine them, each of the sixteen core rules (ALPHA, BIT, CHAR, CR, CRLF, CTL, DIGIT, DQUOTE, HEXDIG, HTAB, LF, LWSP, OCTET, SP, VCHAR, WSP) derives exactly the texts Appendix B.1 gives it, for every code point and every sequence, whichever engine is asked, in whatever letter case the rule is named, directly or through another rule; the same for its regular expression.",
 ["inputs"], "every core rule, every Unicode code point, ill-formed bytes, and sequences of up to 12 characters",
 "Tests try a few characters of some core rules; a wrong bound shows only at one code point.",
 ["rules.go", "grammar.go"],
 [("core rules as data", "rules.go")],
 "property-based testing: enumeration of code points in blocks plus random sequences against a hand transcription of Appendix B.1",
 "Quick tier: the first 4096 code points of every rule exhaustively and random blocks above; thorough: all of Unicode.")

prop("C15", "A transition graph accepts exactly the rule's language",
 "For every non-recursive rule without prose and every choice of expansion options, the transition graph run as an automaton over its public fields (from an entrypoint along Nexts to an endpoint, the empty node standing for the empty word, rule nodes for the words of their rule) accepts exactly the texts the rule derives. "
 "With rules, strings or num-vals expanded no rule node, multi-character or case-insensitive string, range or multi-value series is left; no successor is nil and node identifiers differ, and ToMermaid shows exactly the nodes, labels (in which no quote is left), edges, entrypoints and endpoints. "
 "Recursive rules give ErrCyclicRule, prose ErrProseValInTransitionGraph, a finite maximum (or the minimum of an unbounded repetition) above the threshold (256 by default) ErrRepetitionThreshold, unknown rules ErrRuleNotFound, undefined references when expanding rules ErrDependencyNotFound; WithMaxNodes either has no effect on the graph or gives ErrMaxNodesExceeded: never more nodes than that, and a larger bound never refuses what a smaller one allows.",
 ["programs", "inputs", "configurations"], "every grammar, rule, option combination and input",
 "Tests compare a few small graphs; splicing of nullable and repeated parts goes wrong only in particular nestings.",
 ["transition_graph.go"],
 [("graph construction by concatenation, cloning and chaining", "transition_graph.go"), ("Mermaid rendering", "transition_graph.go")],
 "property-based testing: random grammars and options, graph run as an automaton against the reference recogniser",
 "Graphs of up to about 300 nodes, inputs up to 60 bytes.")

prop("C16", "Graph readers enumerate or cover the graph completely and stop",
 "For every transition graph, the default reader produces, shortest trails first, exactly the spellings of all trails from an entrypoint to an endpoint (each edge at most once; every letter case of case-insensitive strings, every character of ranges), then stops. "
 "The compact reader stops after at most edges + vertices + values productions that together cover every vertex, every edge and every terminal value lying on a complete walk; every production of either is derived by the rule (rule nodes that were not expanded are never passed through). "
 "Next may be called any number of times or not at all, Scan gives nil only after the end, readers of one graph do not disturb each other, and graphs built anew give the same productions in the same order.",
 ["programs", "configurations", "histories"], "every transition graph, reader mode and sequence of Next/Scan calls",
 "Tests count the productions of a few graphs; completeness is over all graphs.",
 ["transition_graph.go"],
 [("trail enumeration by levels with a variation odometer", "transition_graph.go"), ("greedy compact cover", "transition_graph.go")],
 "property-based testing: random graphs and call sequences against an independent trail enumerator and a forward-backward coverage oracle",
 "Graphs of up to 150 nodes; trail sets above 1500 productions or 40000 steps are compared up to the last complete level.")

prop("C12", "A tape-driven generator maps every tape to a word of the grammar",
 "For every expanded transition graph of a rule that derives some text, and all budgets, Generate maps every tape to a word the rule derives (never nil), deterministically: the same on every call, for another generator of a graph built anew from the same grammar and options, and for the tape with zero bytes appended; GenerateRand gives words of the rule and depends on the seed only. "
 "Length, repetition and step budgets (zero included) bound the word: past the budget the walk takes a shortest way to an endpoint; with stable addressing the i-th decision reads the i-th four-byte big-endian slot and the word is the one the cursor-addressed tape of the same decisions gives. "
 "On small graphs every word of one or two nodes comes from some short tape; a graph with rule nodes left, or one that admits no text, is refused by NewGenerator with an error.",
 ["programs", "inputs", "configurations"], "every transition graph, tape, budget and addressing mode",
 "Tests feed some tapes to three grammars; totality and validity are over every graph, budget and tape.",
 ["fuzz.go"],
 [("free walk with budgets and shortest-path steering", "fuzz.go"), ("tape addressing", "fuzz.go")],
 "property-based testing: random grammars, budgets and tapes; words judged by the reference recogniser and the graph automaton, metamorphic relations on tapes",
 "Graphs of up to 200 nodes, tapes up to 120 bytes; words above 60 bytes are judged by the graph automaton (itself judged in C15).")

prop("C13", "A near miss is never a word and its label tells the edit",
 "For every expanded transition graph of a rule that derives some text and every tape, NearMiss finds a text (a trailing 0xFF byte never fits) that the rule does not derive, and that differs from the word Generate gives for the tape with cursor addressing by exactly the edit its label names: the substitution, truncation, deletion or trailing byte at the offset given, or a character one below or above the num-val range named, where the word holds a character of that range. "
 "It is the same on every call and for a graph built anew; NearMissRand likewise depends on the seed only and gives no word.",
 ["programs", "inputs", "configurations"], "every transition graph and tape",
 "Tests check a few tapes of two grammars; soundness must hold for ambiguous and redundant grammars.",
 ["fuzz.go", "recognize.go"],
 [("candidate perturbations verified against the grammar", "fuzz.go")],
 "property-based testing: random grammars and tapes; near misses judged by the reference recogniser, labels re-enacted on the base word",
 "Graphs of up to 200 nodes, words up to 40 bytes.")

prop("C14", "ExpectedNext gives exactly the octets that may follow a prefix",
 "For every generator and byte string, ExpectedNext reports accepts exactly when the string is a word, and next as exactly the octets that, appended, leave a prefix of some word (in ascending order, without duplicates): inside multi-byte characters, at the edges of ranges, next to surrogates, in either letter case. A string that is no prefix of a word has no next octets and is not accepted. ok is false only when a range of more than 65536 characters is in play. "
 "Budgets and earlier calls do not change the answer.",
 ["programs", "inputs"], "every transition graph and byte-string prefix",
 "Tests try prefixes of a few ASCII grammars; exactness is over all prefixes, including ones cut inside a character.",
 ["fuzz.go"],
 [("frontier simulation over per-node octet emissions", "fuzz.go")],
 "property-based testing: random grammars and prefixes against a byte-level automaton with arithmetic UTF-8 intervals",
 "Graphs of up to 200 nodes, prefixes up to about 40 bytes.")

prop("C10", "Generate gives a word of the rule or an error, by the seed alone",
 "For every grammar (validated or not), rule, seed and options: when the rule derives some text (of fewer than 2^30 characters), Generate returns, in finite time, a non-nil word that the rule derives, in which unbounded repetitions occur at most max(WithRepMax, their minimum) times; once the word has WithThreshold bytes it is finished the shortest way (0: from the start): no more occurrences than the minimum, no option, and of several alternatives one of least cost (bytes plus rule references). Recursions that outgrow themselves, prose, undefined rules, num-vals that are no characters and repetitions with min > max in some alternatives do not disturb this (such alternatives are never picked); "
 "when the rule derives no text, there is an error and no output: ErrCyclicRule for an inescapable recursion, ErrRuleNotFound for an unknown rule. The same seed and options always give the same word, on a grammar parsed anew too; over many seeds every alternative, repetition count, option and character of a range comes up.",
 ["programs", "inputs", "configurations"], "every grammar, rule, seed, repetition bound and threshold",
 "Tests check that ten seeds give something; membership and termination are over all grammars and seeds.",
 ["generate.go", "ast.go"],
 [("random descent with steering by minimum expansion cost", "generate.go")],
 "property-based testing: random grammars, options and seeds; words judged by the reference recogniser, productivity by a fixpoint over the model",
 "Words above 80 bytes are judged once per case, above 400 bytes not at all; completeness only for languages of up to 60 words, for words of probability 1/16 or more.")

prop("C11", "The AST generator maps every tape to a word, recursion included",
 "NewASTGenerator refuses a rule exactly when a rule within its reach (itself included) is undefined or derives no text (of fewer than 2^30 characters), and an unknown one with ErrRuleNotFound. Otherwise Generate maps every tape, under all depth, length and repetition budgets (zero included), in finite time to a non-nil word the rule derives, in which unbounded repetitions occur at most their minimum plus WithMaxRepeat times; once the depth of rules or the length of the word reaches its budget (0: from the start) the word is finished the shortest way: no more occurrences than the minimum, no option, and of several alternatives one of least cost (bytes plus rule references). "
 "The word is the same on every call, on a grammar parsed anew, and for the tape with zero bytes appended; GenerateRand depends on the seed only; for small finite languages every word comes from some tape, in every letter case.",
 ["programs", "inputs", "configurations"], "every grammar, rule, tape and budget",
 "Tests feed random tapes to four grammars; totality is over all grammars, including ambiguous, nullable and nested recursion.",
 ["ast.go"],
 [("recursive descent over the grammar with cheapest-completion steering", "ast.go"), ("minimum expansion cost fixpoint", "ast.go")],
 "property-based testing: random grammars, budgets and tapes; words judged by the reference recogniser, productivity by a fixpoint over the model, metamorphic relations on tapes",
 "Words above 80 bytes are judged once in six times, above 400 bytes not at all; completeness only for languages of up to 60 words and 3000 tapes.")

prop("C18", "Forest budgets refuse with a typed error and never change an answer",
 "For every grammar, input and engine (ParseForest, ParseBSR): under WithMaxForestNodes(n), n > 0, the call either gives a forest of at most n Nodes() whose answers (Valid, NumTrees, Ambiguous, Nodes, ParseError, the Tree of an unambiguous input) are those of the unbounded run, or no forest and ErrForestTooLarge carrying Max n; a larger budget never refuses what a smaller one allows; "
 "ParseBSR refuses exactly when its set has more than n elements, ParseForest exactly when it has to allocate more than n nodes (all of which are in the answer when the grammar leaves no choice). WithMaxSlots(n) refuses, with ErrGrammarTooLarge carrying Max n and no forest, exactly when the grammar reachable from the rule takes more than n nonterminals (one per distinct rule, repetition, group and option). "
 "0 means no bound, the options do not disturb each other, and a highly ambiguous input under a small budget is refused at once, however large its forest would be.",
 ["programs", "inputs", "configurations"], "every grammar, input and budget",
 "One test sets a budget once; that a budget never changes an answer, and that its edge is exact, is over all grammars and budgets.",
 ["sppf.go", "bsr.go"],
 [("node budget in both engines", "sppf.go"), ("nonterminal budget while lowering the grammar", "sppf.go"), ("BSR set bound", "bsr.go")],
 "property-based testing: random grammars, inputs and budgets against the unbounded run, bisection for the edge, exact thresholds from the model",
 "Inputs of up to 16 bytes (60 for choice-free grammars, 800 for the explosive ones).")

prop("C19", "No text and no call makes the library panic, hang or exhaust memory",
 "For every byte string, ParseABNF (with or without validation, with or without redefinition of core rules) returns a grammar or an error, never both or neither, and leaves the input as it was. For every grammar so obtained, even one that validation refuses, every rule name (undefined ones included) and every input: printing, IsValid, ParseForest and ParseBSR (with their queries and diagnostics), Regex with a length budget, TransitionGraph with a node budget, its Mermaid text, readers and generators, NewASTGenerator, Generate, the dependency graph and cycle queries, SemvalABNF, GetRule and GenerateGoParser return, without panicking, a result or an error, never both. "
 "Deep nesting, long names and numbers, extreme repetition bounds (over elements that may be empty, too), undefined rules, prose, values above U+10FFFF and chains of rules that double at each step change nothing about that: budgets refuse in time.",
 ["inputs", "programs", "configurations"], "every byte string as grammar text, and every call on what parses",
 "Tests and their fuzz seeds hold some tens of texts; totality is over all texts and calls.",
 ["grammar.go", "sppf.go", "bsr.go", "recognize.go", "regex.go", "transition_graph.go", "fuzz.go", "ast.go", "generate.go", "dag.go", "codegen.go"],
 [("evaluation of arbitrary ABNF texts", "grammar.go"), ("bounds on lowering, forests, regexes and graphs", "sppf.go")],
 "property-based testing and fuzzing: random octets, token soup, mutated and extreme grammar texts through the whole API, under a watchdog for CPU time and memory",
 "Texts of up to 3000 bytes; 60 s of CPU time and 4 GB per case. Calls whose honest answer is enormous are left out: words of more than 20000 expansions, trails of graphs above 25 edges, compact covers with more than 500 values per node, trees of chains of empty rules above 12 steps.")

prop("C20", "Shared values answer alike whatever was called before or runs at once",
 "A Grammar, TransitionGraph, Generator, ASTGenerator, Forest or BSRForest may be shared: every call on it gives the answer it gives on a value of its own, whatever calls came before, in whatever order, and whatever calls run at the same time from other goroutines (no data races); "
 "a graph reader started on a shared graph is independent of other readers. No call changes the grammar, the core rules, the grammar of ABNF itself, or the input or tape it was given; what a call returns (byte slices, trees, counts, dependency graphs) is the caller's own, and writing to it changes no later answer. A grammar that redefines core rules leaves every other grammar alone.",
 ["histories", "schedules", "programs", "inputs"], "every history and interleaving of calls on shared values",
 "Tests make each call on a fresh value from one goroutine; independence is over all histories and schedules.",
 ["grammar.go", "sppf.go", "bsr.go", "fuzz.go", "ast.go", "transition_graph.go", "rules.go", "abnf.go"],
 [("caches in generators and forests", "fuzz.go"), ("core rules shared by all grammars", "rules.go")],
 "property-based testing: random histories and 4-goroutine schedules of calls over the whole API on shared values, against the answers of the same calls alone; harness built with the race detector",
 "6 to 14 calls per case on small grammars; schedules are those the Go scheduler happens to give under the race detector.")

prop("C21", "The command-line tools give exactly what the library gives",
 "For every grammar text, rule name and flags: pap validate, generate, regex and transition-graph print what the library gives for that text (read from stdin or from the named file) and the options the flags stand for (flags set to false included), and exit 0; the same seed prints the same word, without a seed a random one is taken and it is some word of the rule. "
 "abnf-gen writes exactly the generated parser, to stdout or to the whole of the output file. Where the library reports an error, or the command line cannot be carried out, the exit status is non-zero, there is a message on stderr and (for library errors) nothing on stdout, and an existing output file stays as it was.",
 ["inputs", "configurations"], "every grammar text, rule name and combination of flags",
 "No test runs the tools.",
 ["cmd/pap/main.go", "cmd/pap/commands/validate.go", "cmd/pap/commands/generate.go", "cmd/pap/commands/regex.go", "cmd/pap/commands/transition_graph.go", "cmd/pap/commands/utils.go", "cmd/abnf-gen/main.go"],
 [("flags turned into library options", "cmd/pap/commands/transition_graph.go"), ("input and output files", "cmd/abnf-gen/main.go")],
 "property-based testing: random grammar texts and command lines, differential against the library called in-process (flowcharts compared up to node names and line order)",
 "Small grammars; graphs of up to 300 nodes, regexes up to 100000 bytes.")
