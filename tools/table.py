COMMON = 'Every case inside the stated bounds is executed on the real code and compared with an independent reference model; nothing is sampled. Beyond the bounds nothing is claimed.'
prop('C01', 'Sequences, choices, repetition, names, lookahead parse as documented',
 'For every grammar built from literals, regular expressions, rule references, sequences, ordered choices, ?, *, +, {m,n}, names and lookahead, parsing any input gives exactly the documented outcome: members in order, the first alternative that matches (its index recorded), greedy repetition between its bounds (an unbounded one ends at the first iteration that consumes nothing), lookahead that consumes nothing. '
 'The resulting tree has one node per grammar construct, labelled with its rule or name, and its leaves are exactly the matched stretches of the source with their true offsets. '
 'Input that does not match is rejected, and input left over after a match is reported with the tree that did match.',
 ['programs', 'inputs'], 'all grammars and all inputs; checked exhaustively for every term of up to 5 constructors (6 thorough) over a 5-leaf vocabulary, two-rule recursive grammars and parameter families, on all strings over {a,b} up to length 5 (6)',
 'The tests parse a few dozen fixed grammar/input pairs; operator interactions (a repetition inside a choice inside a lookahead) and back-tracking positions only show up on combinations nobody wrote down.',
 ['parser/parser.go', 'parser/terms.go', 'parser/scanner.go'], ['Sequence, choice, repetition, lookahead parsers @ parser/parser.go', 'Grammar.Compile rule linking @ parser/parser.go', 'Parsers.Parse residue reporting @ parser/terms.go'],
 'exhaustive bounded enumeration of grammars x inputs against an explicit-state reference interpreter', COMMON)
prop('C02', 'Delimited repetition builds the documented lists and chains',
 'For every element term and separator term, a delimited repetition matches element, then as many separator-element pairs as possible; a leading or trailing separator is accepted exactly when the grammar marks it optional there. '
 'Without associativity the result is one flat node of alternating elements and separators (with an empty marker outside an optional leading or trailing separator), with :> a left-leaning and with <: a right-leaning chain of three-child nodes. '
 'A separator that is not followed by an element is left unconsumed unless a trailing separator is allowed.',
 ['programs', 'inputs'], 'all element/separator terms, associativities, leading/trailing marks, enclosing contexts and inputs; checked for 14 elements x 13 separators x 12 variants x 8 contexts on all strings over {a,b,","} up to length 5 (7 thorough)',
 'Tests use two or three delimited lists with literal commas; nullable elements, overlapping separators and associativity with optional ends are not sampled.',
 ['parser/parser.go'], ['Delimited repetition parser @ parser/parser.go', 'Expansion into sequence and repetition @ parser/parser.go'],
 'exhaustive bounded enumeration of delimiter terms x inputs against a reference interpreter', COMMON)
prop('C03', 'Precedence stacks nest operators by layer, at any height',
 'In a precedence stack every occurrence of the self reference in a layer means the next layer, and in the last layer the whole stack again, however many layers there are and whatever each layer is made of. '
 'Later layers therefore bind tighter, each layer keeps its own associativity, and every layer shows up in the tree under the rule name and layer number. '
 'References to the stack from other rules always enter at its first layer.',
 ['programs', 'inputs'], 'all stacks and inputs; checked for every stack of up to 2 upper layers from 14 shapes over 6 base layers x 3 surroundings on all operator strings up to length 5 (7), and towers of 1..13 layers',
 'Tests contain a four-layer arithmetic stack; layer counts of ten and more, and layers without operators, are never exercised.',
 ['parser/parser.go', 'parser/resolve.go'], ['Layer splitting and self-reference renaming @ parser/parser.go', 'Resolve on each kind of term @ parser/resolve.go'],
 'exhaustive bounded enumeration of layered grammars x inputs against a reference interpreter', COMMON)
prop('C04', 'Back-references match exactly the text most recently bound',
 'A back-reference matches exactly the text that the most recent enclosing or preceding term of that name produced on the current parsing path, leaf by leaf and without surrounding-pattern wrapping, and contributes it to the tree at its own position. '
 'Bindings made inside an abandoned alternative or iteration are never visible afterwards, and bindings are visible inside rules that are called later in the same sequence. '
 'If the name is unbound the default literal is matched when there is one, and otherwise the parse fails at that point.',
 ['programs', 'inputs'], 'all grammars using back-references and all inputs; checked for every term of up to 5 (6) constructors mentioning one, 15 bound values x 12 uses x 4 separations x 7 shapes, and all indentation layouts of up to 4 (6) lines',
 'Tests cover two recipes; scoping across back-tracking, rebinding and structured values cannot be sampled by hand.',
 ['parser/parser.go', 'parser/scope.go'], ['Back-reference parser @ parser/parser.go', 'Scope binding @ parser/scope.go'],
 'exhaustive bounded enumeration of binding grammars x inputs against a reference interpreter with explicit environments', COMMON)
prop('C05', 'Terminals match literally or by regex, and wrapping applies exactly',
 'A string literal matches exactly its own characters whatever they are; a regular expression matches where it stands, consumes its whole match, and yields the text of its first capturing group (the whole match if it has none or the group took no part). '
 'With a wrap rule every literal and regular expression is matched inside the wrapping pattern but yields only its own text, except those listed as exempt, which are matched bare. '
 'Offsets of the yielded text are those of the text itself, and parsing continues after the wrapping.',
 ['programs', 'inputs'], 'all literals, expressions, wrap patterns, exemption lists and inputs; checked for all literals of 2 characters over 101 characters (3 over 18 metacharacters), all expressions up to 3 (4) constructors, 6 wraps x 6 exemption lists x 9 x 9 terminals x 6 shapes',
 'Tests use plain words and one whitespace wrap; metacharacters in literals, several groups and groups that take no part are not sampled.',
 ['parser/parser.go', 'parser/scanner.go'], ['Literal and regex terminals, wrap insertion @ parser/parser.go', 'Regex eating and captures @ parser/scanner.go'],
 'exhaustive bounded enumeration of terminals, wrap rules and inputs against a reference matcher', COMMON)
prop('C06', 'Scoped grammars shadow, inherit and restore names lexically',
 'Inside the braces of a scoped grammar a rule name means the innermost definition around the place where it is written, and outside the braces the scoped definitions have no effect. '
 'Outer rules reached from inside keep their own meaning of every name, sibling scopes do not see each other, and an outer wrap rule applies inside unless the scope defines its own. '
 'This holds for any nesting depth and for any mixture of aliases, names, recursion and stacks in the scoped rules.',
 ['programs', 'inputs'], 'all nestings and inputs; checked for 9 bodies x 13 inner rule sets x 5 outer rule sets x 7 contexts, all pairs of inner sets nested two deep and side by side, with wrap rules at each level',
 'Two tests exercise one scoped grammar each; shadowing combinations are unsampled.',
 ['parser/parser.go'], ['Scoped grammar linking @ parser/parser.go'],
 'exhaustive bounded enumeration of nested grammars x inputs against a lexically scoped reference interpreter', COMMON)
prop('C07', 'External parsers and escapes run exactly where the grammar puts them',
 'An external parser named in the grammar is called exactly at the positions the grammar reaches, with the input there and the bindings in force; what it returns becomes that part of the tree and parsing continues where it stopped. '
 'If it fails the grammar back-tracks as for any other failure and its consumption is undone, a stop request comes back to the caller unchanged, and a missing external fails the whole parse. '
 'A registered escape that opens where a term is expected hands over to its external parser, whose result stands for that term provided the closing mark follows.',
 ['programs', 'inputs'], 'all grammars with externals, all behaviours of the external and all inputs; checked for all terms of up to 4 (5) constructors over 7 external behaviours, and all such grammars with escapes at every place of the input, comparing the exact sequence of calls',
 'Tests call one external that succeeds; failing, consuming-then-failing and stopping externals inside back-tracking constructs are unsampled.',
 ['parser/parser.go', 'parser/scope.go', 'parser/error.go'], ['External reference parser and escapes @ parser/parser.go', 'Stop and fatal error classification @ parser/error.go', 'Externals in scope @ parser/scope.go'],
 'exhaustive bounded enumeration of environment (external parser) behaviours x grammars x inputs against a reference interpreter', COMMON)
prop('C08', 'Commit points reject early but never change what is accepted',
 'Marking a term as a commit point, or letting the compiler mark the literals that occur exactly once in the whole grammar, never changes the tree of an input that parses, and loses no input of a grammar whose literals cannot be mistaken for one another. '
 'Once a commit point has been passed in a sequence, a later failure in that sequence is final and reported as such, rather than being undone by an enclosing choice or repetition. '
 'Literals that occur twice, inside scopes included, separators that may lead or trail, and lookaheads never commit.',
 ['programs', 'inputs'], 'all grammars, placements of commit points and inputs; checked for all terms of up to 5 (6) constructors with explicit and with automatic commit points over {a,b,c,ab,[ab],rule} on all strings up to length 4 (5), and 14 grammar shapes under every assignment of literals on strings up to length 5 (6)',
 'Automatic commit points are inserted into every compiled grammar; a single misplaced one silently rejects valid input, and only on the grammar shapes where back-tracking was needed.',
 ['wbnf/cutpoints.go', 'parser/parser.go', 'parser/error.go'], ['Unique literal analysis and insertion @ wbnf/cutpoints.go', 'Commit handling in sequences, choices and repetitions @ parser/parser.go', 'Fatal errors @ parser/error.go'],
 'exhaustive bounded enumeration of commit-point placements x inputs against a reference interpreter with and without cuts', COMMON)
prop('C09', 'Grammar text denotes exactly the documented terms',
 'The text of a grammar compiles to exactly the terms its documentation describes: operator precedence and grouping, quantifiers applied in the documented order, names, references with defaults, lookahead, stacks, scoped grammars, and strings and regular expressions with their escapes decoded. '
 'White space and comments between tokens make no difference wherever they are put. '
 'Malformed escapes, quantifier bounds and regular expressions are reported as errors.',
 ['programs', 'inputs'], 'all grammar texts; checked for all terms of up to 4 (5) constructors, all layouts with up to 2 (3) changed gaps, all strings of up to 2 (3) characters in 3 quotings, every escape form, and regular-expression bodies of up to 4 (5) characters',
 'Tests compile some thirty grammars and mostly look at whether they parse something, not at what term each construct became.',
 ['wbnf/compile.go', 'wbnf/wbnfgrammar.go', 'wbnf/validation.go'], ['Grammar builder @ wbnf/compile.go', 'String and regexp decoding @ wbnf/compile.go', 'Self-hosted grammar @ wbnf/wbnfgrammar.go', 'Validation @ wbnf/validation.go'],
 'exhaustive bounded enumeration of grammar texts, compared with the terms they were written from', COMMON)
prop('C10', 'Macros expand by substitution at every place and depth',
 'Invoking a macro means its body with every parameter replaced by the argument term at that place, wherever the parameter stands (in sequences, choices, quantifiers, names, delimiters, lookaheads, scoped grammars) and wherever the invocation stands. '
 'Macros may invoke other macros with their own parameters as arguments, may share parameter names, and leave no trace of themselves in the grammar. '
 'An unknown macro, a wrong number of arguments, a macro that needs itself, and an invalid body are reported as errors.',
 ['programs', 'inputs'], 'all macro definitions, invocations and arguments; checked for all bodies of up to 3 (4) constructors x 144 argument pairs, 12 bodies x 16 contexts x 144 pairs at 3 places, chains of macros and 26 misuses, on all strings up to length 4 (5)',
 'Tests expand one two-parameter macro; substitution below each kind of term, shadowed parameters and macros calling macros are unsampled.',
 ['wbnf/compile.go', 'wbnf/validation.go', 'wbnf/check.go'], ['Macro collection and substitution @ wbnf/compile.go', 'Macro call validation @ wbnf/validation.go', 'Cycle detection @ wbnf/check.go'],
 'exhaustive bounded enumeration of macro programs x inputs against the textually expanded grammar and a reference interpreter', COMMON)
prop('C11', 'Importing files gives the same grammar as one big file',
 'A grammar split over imported files in any way, wherever the imports are written and however deep they nest, compiles to exactly the grammar of the texts put together, each path being resolved against the file it is written in. '
 'Compiling always ends, import cycles and files imported twice included, with either that grammar or an error. '
 'A file that is reached and is missing, unreadable or invalid is an error, and files that are not reached make no difference.',
 ['programs', 'configurations'], 'all import graphs and file systems; checked for all graphs over a main grammar and 3 (4) files, self-imports and cycles included, in 3 directory layouts and 3 path spellings, each file broken in 7 ways, and every split of a 6-part grammar over 3 files',
 'One test imports one file; nested directories, repeated and cyclic imports and broken files are unsampled.',
 ['wbnf/compile.go', 'wbnf/validation.go'], ['Import handling @ wbnf/compile.go', 'Merging of rules @ wbnf/compile.go'],
 'exhaustive bounded enumeration of import graphs and file faults on the real loader against the single-file grammar', COMMON)
prop('C12', 'Malformed or invalid grammars are refused with an error, all others compile',
 'Compiling refuses every text that is not a grammar or that breaks a documented rule (unknown rule, rule or macro defined twice, name clashing with a rule or repeated in a sequence, bounds the wrong way round, unknown macro or wrong number of arguments, misplaced stack), and accepts every other text. '
 'It answers with an error value that says what is wrong, never with a panic, whatever the text is. '
 'An accepted text is read completely: nothing after its first part is dropped.',
 ['programs', 'inputs'], 'all texts; checked for all sequences of up to 3 (4) of 32 tokens, 4 (5) of 18 and 5 (6) of 11 in 7 places, all strings of up to 3 (4) characters that matter to the lexer, and every sample grammar with any token removed, doubled, exchanged or replaced',
 'Tests feed some ten malformed grammars; which of the endless malformed texts slip through and then crash the parser cannot be settled by samples.',
 ['wbnf/compile.go', 'wbnf/validation.go', 'wbnf/check.go', 'wbnf/wbnfgrammar.go'], ['Compile @ wbnf/compile.go', 'Validation @ wbnf/validation.go', 'Reference checks @ wbnf/check.go'],
 'exhaustive bounded enumeration of token sequences against an independent reader and validator of the documented syntax', COMMON)
prop('C13', 'Parsing with an accepted grammar always ends, without a crash',
 'A grammar in which a rule can get back to itself without consuming input is refused, and no other grammar is refused for that reason. '
 'With an accepted grammar every parse, from any of its rules and on any bytes, comes to an end with a tree or an error, and never with a panic or by running forever. '
 'This includes repetitions of things that match nothing, and long or deeply nested input.',
 ['programs', 'inputs'], 'all grammars and all inputs; checked for all pairs of rule bodies of up to 4 (5) constructors over each other, all three-rule cycles, stacks and scoped grammars over small bodies, on all strings up to length 3 (4), every byte string of length 2 on 6 grammars, and inputs of up to 100000 repetitions or levels',
 'Non-termination needs a particular combination of nullable terms and references; tests sample a handful of left-recursive grammars.',
 ['wbnf/check.go', 'wbnf/recursion.go', 'parser/parser.go'], ['Left recursion verdict @ wbnf/check.go', 'Progress in repetitions @ parser/parser.go', 'Back-reference parser @ parser/parser.go'],
 'exhaustive bounded enumeration of recursive grammars x inputs against a fixpoint model of left recursion and a reference interpreter', COMMON)
prop('C14', 'The AST keeps every leaf, name and choice of the parse tree',
 'The AST made from a parse tree holds every leaf of it exactly once, with its offset and text, under the name, rule or literal that matched it and in input order under each name. '
 'A group is a single node exactly if the grammar allows that name at most once in that place and a list otherwise; every chosen alternative, the rule and every missing leading or trailing element are recorded, levels of a precedence stack go by the name of their rule, and names mean what the scope they are written in says. '
 'The text of an AST node runs from its first leaf to its last, and is absent exactly if it has none.',
 ['programs', 'inputs'], 'all grammars and all their trees; checked for all terms of up to 4 (5) constructors over 5 leaves, 7 unary and 6 binary forms, and for the delimited, stack, back-reference and scope families of C02..C04 and C06, on all strings up to length 5 (6)',
 'Users only ever see the AST; tests look at a few nodes of about ten trees, and the shape depends on the interplay of names, quantifiers, chains, levels and scopes.',
 ['ast/from_parsernode.go', 'ast/counter.go', 'ast/node_string.go', 'parser/terms.go'], ['FromParserNode @ ast/from_parsernode.go', 'Occurrence counters @ ast/counter.go', 'Scanner of nodes @ ast/node_string.go'],
 'exhaustive bounded enumeration of grammars x inputs against an independently written AST model', COMMON)
prop('C15', 'A parse tree can be rebuilt from its AST',
 'Turning a parse tree into an AST and back gives the same tree, with its tags, alternatives, separators and offsets, whenever the grammar tells how many elements each repetition has.',
 ['programs', 'inputs'], 'all grammars whose repetitions can be told apart by name, without associative chains and structured back-references; checked for those among the programs and inputs of C14',
 'Tests rebuild three trees; which repetition an element of a merged list belongs to depends on the whole grammar.',
 ['ast/to_parsernode.go', 'ast/from_parsernode.go'], ['ToParserNode @ ast/to_parsernode.go', 'FromParserNode @ ast/from_parsernode.go'],
 'exhaustive bounded enumeration of grammars x inputs, comparing the rebuilt tree with the original', COMMON)
prop('C17', 'A scanner always denotes its stretch of the source',
 'However a scanner was obtained (made, sliced, skipped, eaten from, captured by a regular expression, merged, stripped of its source), it denotes a stretch of its source: its text, offset, 1-based line and column, file name, and context are those of the stretch, and operations that fail leave it alone. '
 'Containment is that of stretches of one source, and merging gives the smallest stretch that covers all, or an error for different sources. '
 'Stripping the source keeps text, offset and file name.',
 ['histories', 'inputs'], 'all sources and all sequences of operations; checked by search to the fixpoint from 10 (13) sources with every argument in range, all pairs of scanners and all triples within small sources',
 'Every offset, error message and AST span is made of these operations; the tests use three sources and a dozen operations.',
 ['parser/scanner.go'], ['Scanner operations @ parser/scanner.go', 'Sources and stripped sources @ parser/scanner.go', 'MergeScanners @ parser/scanner.go'],
 'explicit-state search to the fixpoint over the real operations against an interval model', COMMON)
prop('C18', 'Every rejection comes with a report that is finite, stable and true',
 'The text of every error, of a parse or of a grammar, can be made, whatever the failure was, is the same whenever it is made, and does not change with what happens to the scanner afterwards. '
 'Wherever it says that a terminal was expected at some text, that terminal was tried on exactly that text and did not match. '
 'When input is left over the error holds the tree and the residue, and shows the residue at its line and column in its surroundings.',
 ['programs', 'inputs'], 'all failing parses and refused grammars; checked for the programs of C01, C02, C04, C06 and C08 (one step smaller) on all their inputs of up to 3 (4) characters, multi-line and windowed sources up to length 6 (8), and all sequences of up to 3 (4) of 19 grammar tokens',
 'Reports are made lazily from the state of the parser after it has back-tracked; tests never look at them.',
 ['parser/error.go', 'parser/parser.go', 'gotree/gotree.go'], ['ParseError and its lazy causes @ parser/error.go', 'Terminal failures @ parser/parser.go', 'UnconsumedInputError @ parser/error.go', 'Tree printing @ gotree/gotree.go'],
 'exhaustive bounded enumeration of failing parses, comparing what reports say with the failing attempts of a reference interpreter', COMMON)
prop('C19', 'Grammars, trees and the package can be used by several goroutines at once',
 'Compiled grammars, parsers, trees, ASTs, sources and errors can be shared between goroutines without any locking: parsing, making and rebuilding ASTs, writing out, compiling again, comparing, and generating code from shared values never race. '
 'Texts can likewise be compiled, and code be generated, at the same time. '
 'Whatever the interleaving, each operation returns exactly what it returns when it runs alone.',
 ['schedules', 'programs'], 'all interleavings of operations on shared values; checked for every pair of some 18 operations on grammars that combine all features, under all schedules with one preemption (thorough: two) at the first occurrences of every statement of the module',
 'No test starts a goroutine; a cache, a counter or a lazily filled field that is written during a parse only shows under a particular interleaving.',
 ['parser/parser.go', 'parser/terms.go', 'wbnf/compile.go', 'ast/from_parsernode.go', 'cmd/codegen/grammar.go'], ['Parsers shared by parses @ parser/terms.go', 'Parsing state @ parser/parser.go', 'Core grammar shared by all compilations @ wbnf/compile.go', 'AST conversion @ ast/from_parsernode.go', 'Type model of generated code @ cmd/codegen/grammar.go'],
 'stateless exploration of all schedules with bounded preemptions on the real code under a controlled scheduler, with a happens-before race oracle', COMMON)
prop('C20', 'No operation changes what it is given or what later operations do',
 'Parsing, failing to parse, making ASTs and rebuilding trees, viewing, comparing, writing out, recompiling and generating code leave the grammar, the parsers, the input, and every tree and AST made before exactly as they were. '
 'What an operation returns depends only on what it is given: it is the same the first time, after any other operations, and on a fresh copy.',
 ['histories', 'programs', 'inputs'], 'all sequences of operations on all grammars; checked for all histories of up to 2 (3) of some 18 operations on ~36 grammars that combine all features, with everything made so far and all package variables dumped in full, and for the programs of C01, C02, C04 and C06 (one step smaller) with all inputs in two opposite orders',
 'Tests parse once with each grammar; state that leaks from one parse, conversion or compilation into the next shows only in particular histories.',
 ['parser/parser.go', 'parser/terms.go', 'wbnf/compile.go', 'ast/from_parsernode.go', 'ast/to_parsernode.go', 'cmd/codegen/grammar.go'], ['Rewriting of grammars before compilation @ parser/parser.go', 'Scopes of a parse @ parser/scope.go', 'AST conversion @ ast/from_parsernode.go', 'Rebuilding trees @ ast/to_parsernode.go', 'Type model of generated code @ cmd/codegen/grammar.go'],
 'exhaustive enumeration of operation histories on the real code, comparing results with a fresh start and dumps of all reachable state before and after', COMMON)
prop('C21', 'The same text and input give the same result in every run',
 'Whatever order the runtime walks its maps in, compiling a text gives the same grammar or the same error text, parsing gives the same tree or the same error text, and ASTs, rebuilt trees, views, generated code and differences come out identical. ',
 ['schedules', 'programs', 'inputs'], 'all map orders, grammars and inputs; checked for all executions that leave the sorted order in at most one choice and the reverse order in at most none (thorough: one), on ~36 grammars that combine all features x 18 operations, 19 refused grammars, and the programs of C01..C04 and C06 (one step smaller)',
 'A test run sees one map order; output that depends on it passes most of the time and fails now and then.',
 ['parser/parser.go', 'wbnf/validation.go', 'wbnf/check.go', 'ast/counter.go', 'ast/treeview.go', 'parser/diff/terms.go', 'cmd/codegen/grammar.go'], ['Rule linking @ parser/parser.go', 'Order of grammar errors @ wbnf/validation.go', 'Left recursion reports @ wbnf/check.go', 'Merging of counters @ ast/counter.go', 'Views of ASTs @ ast/treeview.go', 'Differences of grammars @ parser/diff/terms.go', 'Order of generated declarations @ cmd/codegen/grammar.go'],
 'exhaustive exploration of map iteration orders within a bound on the real code, with every map walk under the control of the explorer', COMMON)
prop('C22', 'Generated code compiles and carries the grammar it was generated from',
 'For every valid grammar and every start rule, "gen" writes Go code that compiles, whatever names, literals and regular expressions it contains. '
 'The grammar in the code equals the grammar it was generated from, and parses every input alike. '
 'A grammar that is refused, or a start rule that is not in it, gives no code.',
 ['programs', 'inputs'], 'all grammars that have code; checked for the programs of C02..C04 and C06, special texts and names in every position, and ~36 grammars that combine all features',
 'The test of the generator renders one grammar; code that drops a bound, a default or an escape parses most inputs alike.',
 ['cmd/codegen/grammar.go', 'cmd/codegen/template.go', 'cmd/codegen/typebuilder.go', 'cmd/gen.go'], ['Writing grammars as Go @ cmd/codegen/grammar.go', 'Template of generated files @ cmd/codegen/template.go', 'Type model of generated code @ cmd/codegen/typebuilder.go', 'gen command @ cmd/gen.go'],
 'exhaustive bounded enumeration of grammars, type-checking the code generated for each and evaluating the grammar in it against the original', COMMON)
prop('C23', 'Generated accessors and walkers give exactly what is in the tree',
 'What ParseString and Parse of a generated package return holds the AST that the grammar gives for the input, and they refuse exactly what it refuses. '
 'The accessors of every typed node give exactly the parts that are in the AST, in order, nothing is out of reach (except separators without names, trees of associative separators and texts of back references), and the walker enters and leaves every typed node once, nested like the tree. '
 'A call-back that returns NodeExiter makes the walker leave out exactly the inside of that node; one that returns Aborter ends the walk at once.',
 ['programs', 'inputs'], 'all generated packages, inputs and call-backs; checked for ~800 grammars of up to 3 (4) constructors, all combinations of stack levels, and those that combine all features, on all inputs of up to 4 characters, stopping the walker at every call-back',
 'The tests look at the type model of a dozen grammars, and never run generated code other than that of wbnf itself.',
 ['cmd/codegen/types.go', 'cmd/codegen/typebuilder.go', 'cmd/codegen/pushtype.go', 'cmd/codegen/walkerinterface.go', 'cmd/codegen/template.go'], ['Accessors @ cmd/codegen/types.go', 'Counting of uses @ cmd/codegen/types.go', 'Type model of generated code @ cmd/codegen/typebuilder.go', 'Walkers @ cmd/codegen/walkerinterface.go', 'Template of generated files @ cmd/codegen/template.go'],
 'exhaustive bounded enumeration of grammars, inputs and walks on the generated code itself, built by the hundred, against the untyped AST', COMMON)
prop('C24', 'The commands succeed exactly when nothing is wrong, and never half-write',
 'The "test" and "gen" commands succeed exactly if the grammar, its imports, the start rule and the input are valid and the output can be written, and then give the whole output in the place that was asked for. '
 'Otherwise they fail with a message and a failing exit status, and leave all files as they were. '
 'It makes no difference from which directory they are run and how the paths are spelled.',
 ['configurations', 'fault_sequences', 'inputs'], 'all file trees, ways to run the commands, and faults of the environment; checked for the real binary in ~24 k combinations of trees, paths, start rules, options, sources of the input, destinations and faults (streams that are closed or full, files that cannot be read or grow, for every limit)',
 'No test runs the commands at all.',
 ['cmd/gen.go', 'cmd/test.go', 'cmd/main.go'], ['gen command @ cmd/gen.go', 'test command @ cmd/test.go', 'Command line @ cmd/main.go'],
 'exhaustive bounded enumeration of file trees, invocations and injected faults on the real command', COMMON)
prop('C26', 'Differences are empty exactly for equal grammars, terms and trees',
 'Comparing two terms, two grammars or two trees reports no difference exactly if they are the same in everything: kinds, texts, names, bounds, flags, associativity, defaults, scopes, tags, extras, leaves and missing separators. '
 'What it reports names exactly the rules and children that differ, is the same kind of answer both ways round, and comparing never panics.',
 ['programs'], 'all pairs of terms, grammars and trees; checked for all ordered pairs of terms of a few constructors with all flags, grammars of up to two rules, and trees of up to 3 (4) nodes',
 'No test compares anything.',
 ['parser/diff/terms.go', 'parser/diff/nodes.go'], ['Differences of terms and grammars @ parser/diff/terms.go', 'Differences of trees @ parser/diff/nodes.go'],
 'exhaustive bounded enumeration of pairs against equality of unambiguous texts', COMMON)

prop('C27', 'Texts and views of ASTs and trees show every part, in place and in order',
 'The text of an AST tells it apart from every other AST, and its view shows every leaf exactly once, with offset and text, below the names it is under and in input order; only tag nodes are left out, and only on request. '
 'The drawing of a generic tree tells it apart from every other, and sorting puts items in order of rank without losing or swapping equal ones. A parse tree is read by path, printed and put into normal form with every node and leaf in its place, and none of this panics.',
 ['programs', 'inputs'], 'all ASTs and trees; checked for the ASTs of the programs of C14 and all inputs, all hand-made ASTs of up to 5 (6) nodes with leaves of all kinds of text, and all generic trees of up to 5 (6) nodes',
 'The tests compare a handful of views with recorded output.',
 ['ast/node_string.go', 'ast/treeview.go', 'gotree/gotree.go', 'parser/parsernodes.go'], ['Text of nodes @ ast/node_string.go', 'Tree view @ ast/treeview.go', 'Drawing and ranking @ gotree/gotree.go'],
 'exhaustive bounded enumeration of ASTs and trees, their texts taken apart again', COMMON)
prop('C28', 'Accessors of AST nodes agree with the tree, and equality means equal content',
 'One, Many, First, All, Which and Choice give exactly what the node holds under a name, in order, and nothing for names it does not hold or that hold another number of nodes. '
 'Two nodes have equal content exactly if they are the same in names, numbers, order, texts and tags, whatever their offsets; being equal is symmetric and never panics.',
 ['programs', 'inputs'], 'all ASTs; checked for every node of the ASTs of the programs of C14 on all inputs, for all names and pairs of names, and all pairs of nodes made for one grammar',
 'Tests use a few accessors on a few trees, and compare content of no two nodes.',
 ['ast/node.go', 'ast/helpers.go'], ['Accessors @ ast/node.go', 'Helpers @ ast/helpers.go'],
 'exhaustive bounded enumeration of ASTs, names and pairs of nodes against the exported structure', COMMON)
prop('C29', 'Scopes are persistent, and externals see exactly the bindings in force',
 'A scope shows exactly what the operations that made it say, the last binding of a name, the externals given last and the current commit point, and no later operation changes a scope that was made before. '
 'At every call an external sees exactly the names bound at that place of the input, each with the text and the parser it was bound by, and the scope it was given still says so afterwards.',
 ['histories', 'programs', 'inputs'], 'all histories of scope operations and all grammars with externals; checked for all histories of up to 4 (5) operations over every scope made so far, histories with up to 300 names, and all grammars of up to 5 (6) constructors and larger ones of chosen members, on all inputs up to length 4 or 5',
 'No test looks at a scope after something else was made from it, or at what an external is given.',
 ['parser/scope.go', 'parser/parser.go'], ['Scope operations @ parser/scope.go', 'Bindings of sequences @ parser/parser.go'],
 'exhaustive bounded enumeration of operation histories against a reference map, and of programs against the reference interpreter', COMMON)
