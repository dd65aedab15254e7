#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that statements are edited in one place)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
TK='tokenizer/src/'; PR='parser/src/'
p('C01','Longest match wins, and among equal lengths the first declared pattern',
 'For every list of supported patterns and every input, each token that tokenizing yields is built from the longest non-empty prefix of the remaining input that some pattern matches in full under ordinary regular-expression semantics. When several patterns match that prefix, the constructor of the earliest declared one is called.',
 ['inputs','configurations'],'every list of patterns without an empty sub-expression, anchor, word boundary or byte class; every input text, over all of Unicode',
 'The unit tests check three hand-picked pattern lists on about ten strings; nested repetitions, overlapping classes and backtracking over a dead end are reached by almost none of them.',
 [TK+'nfa.rs',TK+'dfa.rs',TK+'tokenizer.rs',TK+'tokenizer/iter.rs'],
 [('regex to NFA, operator by operator',TK+'nfa.rs TryFrom<HirKind> for NFA'),('subset construction, range splitting, lowest pattern index wins',TK+'dfa.rs From<TokenizerNFA>'),('minimisation',TK+'dfa.rs minify'),('remember last accepting position, push the rest back',TK+'tokenizer/iter.rs next')],
 ['(pattern index, text) of every constructor call'])
p('C02','Tokens cover a gap-free prefix of the input, item by item, and the stream ends',
 'Up to its first end-of-stream, a token stream hands every input item to exactly one token constructor, in input order and without gaps, together with exactly the text those items map to. The stream ends only when the input is used up or no pattern matches a non-empty prefix of what is left, every token is non-empty, and so a finite input yields finitely many tokens.',
 ['inputs','configurations'],'every pattern list (also ones matching the empty string), every input of plain characters or of arbitrary items with a mapping function, tokenizer passed by value or by reference',
 'The tests compare a few outputs; loss, duplication or reordering of pushed-back look-ahead needs inputs that make the tokenizer back up by several characters repeatedly.',
 [TK+'tokenizer/iter.rs'],[('queue of pushed-back items',TK+'tokenizer/iter.rs next'),('last_matched_length',TK+'tokenizer/iter.rs next')],
 ['items and text passed to token constructors','items pulled from the source','end of stream'])
p('C03','Tokenizing is lazy: it never reads past the character that settles a token',
 'When a token is yielded, no item has been pulled from the source beyond the first one with which no match starting at that token can be continued (or beyond items pulled earlier for look-ahead), and creating the stream pulls nothing. So a token can be used before later input exists.',
 ['inputs','histories'],'every pattern list, input, and point at which the consumer stops asking for tokens',
 'No test looks at how much of the source was consumed when a token appears.',
 [TK+'tokenizer/iter.rs',TK+'dfa.rs'],[('pull one item at a time, stop at the first missing transition',TK+'tokenizer/iter.rs next'),('no dead states in the automaton',TK+'dfa.rs')],
 ['number of items pulled at each token'])
p('C04','Building a tokenizer accepts exactly the supported patterns and never panics',
 'Building a tokenizer from any list of strings returns an error if some string is not a valid pattern or uses an anchor, word boundary or byte-oriented class anywhere in it, and otherwise succeeds; it never panics. The empty list builds too, into a tokenizer that yields nothing.',
 ['inputs','configurations'],'every list of pattern strings, valid or not, of bounded repetition size',
 'The tests build only valid, supported patterns.',
 [TK+'nfa.rs',TK+'tokenizer.rs'],[('error propagation',TK+'nfa.rs NFARegexConstructError / NFAConstructError'),('TokenizerBuilder::build',TK+'tokenizer.rs')],
 ['Ok/Err/panic of build'])
p('C05','Overlapping patterns are reported, and only those',
 'Building a tokenizer reports a conflict between two patterns exactly when some string is matched in full by both and by no pattern declared between them. Hence there are no warnings if and only if no string is matched by two patterns.',
 ['inputs','configurations'],'every list of supported patterns',
 'One test checks the warnings of one list of three one-character classes.',
 [TK+'dfa.rs'],[('EndConflict collected while choosing the accepting pattern',TK+'dfa.rs From<TokenizerNFA>')],['the warnings returned by build'])
p('C06','The tokenizer automaton is reproducible and minimal',
 'Building twice from the same pattern list, in the same or another process, gives automata that are identical up to numbering. Every state of the automaton can be reached, its outgoing ranges are non-empty and disjoint, and no two of its states accept the same continuations with the same patterns.',
 ['inputs','configurations','histories'],'every list of supported patterns, every hash seed',
 'The tests compare the automata of a few lists, once each; the outcome of building depends on randomly seeded hash maps and pointer order.',
 [TK+'dfa.rs',TK+'tokenizer.rs',TK+'lib.rs'],[('partition refinement',TK+'dfa.rs minify, compress_next'),('range splitting',TK+'dfa.rs align_by_begin, split_by_end')],
 ['public tables of the tokenizer','repeated builds'])
p('C07','Building and using a tokenizer is memory-safe and leaks nothing',
 'Building a tokenizer (successfully or with an error), using it and dropping it performs no out-of-bounds, dangling or uninitialised memory access. After everything is dropped, all memory that was allocated for it has been released.',
 ['inputs','configurations'],'every list of patterns and every input',
 'The automata are graphs of raw pointers dereferenced in unsafe code and of weak references; plain tests pass even when such a pointer dangles or a cycle leaks.',
 [TK+'nfa.rs',TK+'dfa.rs'],[('raw node pointers into pinned boxes',TK+'nfa.rs TokenizerNFANodeRef, '+TK+'dfa.rs TokenizerDFANodeRef'),('weak edges',TK+'nfa.rs Edge')],
 ['AddressSanitizer reports','Miri reports','allocator live-byte balance'])
p('C08','A conflict-free parser accepts exactly the language of its grammar',
 'For every grammar in which each non-terminal has a rule and whose construction reports no conflicts, and for every finite token sequence, parsing succeeds if and only if the sequence can be derived from the start symbol (when the grammar has no ERROR alternatives). Parsing always returns and never panics.',
 ['inputs','programs'],'every context-free grammar (useless symbols included) for which construction gives no warnings, every token sequence including unknown tokens',
 'The tests parse about ten sequences of two expression grammars.',
 [PR+'parser.rs',PR+'iter.rs'],[('nullable/FIRST/closure/goto',PR+'parser.rs calc_null calc_first calc_closure calc_goto'),('tables',PR+'parser.rs calc_table'),('driver',PR+'iter.rs parse')],['Ok/Err of parse'])
p('C09','Reducers see the parse tree bottom-up, each child and token exactly once',
 "On a successful parse of a conflict-free grammar, the reducers are called exactly once per node of the input's parse tree, children before parents and left to right, each with the values its children's reducers returned and the very input tokens it covers, in order. The result is the value returned for the root.",
 ['inputs','programs'],'every conflict-free grammar, every accepted token sequence',
 'The tests compare the result of a handful of parses in which most tokens are indistinguishable.',
 [PR+'iter.rs',PR+'parser.rs',PR+'syntax.rs'],[('reduce: drain the right-hand side, borrow tokens by position',PR+'iter.rs Action::Reduce'),('goto',PR+'iter.rs')],['every reducer call with its arguments','the returned value'])
p('C10','Syntax errors are detected at the first impossible token, before acting on it',
 'For a conflict-free grammar without ERROR alternatives and without useless symbols, parsing a sequence outside the language fails with the no-recovery error as soon as the tokens read so far cannot be continued to a sentence: no token beyond the offending one is pulled and no reducer runs after it is pulled. On success exactly all tokens are pulled.',
 ['inputs','programs'],'every conflict-free grammar in which all symbols are useful, every token sequence',
 'Two failing inputs are tested, and neither how far the input was read nor which reducers ran is observed.',
 [PR+'parser.rs',PR+'iter.rs'],[('exact LR(1) look-ahead sets',PR+'parser.rs calc_closure get_first'),('one token of look-ahead',PR+'iter.rs parse')],['tokens pulled','reducer calls','the error returned'])
p('C11','An error from a reducer ends the parse and is returned unchanged',
 'If a reducer returns an error, parsing immediately returns exactly that error as a reducer error: no other reducer is called and no further token is pulled. A syntax error is never reported as a reducer error or the other way round, and the error value displays and chains to the reducer\'s error.',
 ['inputs','fault_sequences','programs'],'every conflict-free grammar (with or without ERROR alternatives), every input, every reducer call as the failing one',
 'One input with one failing reducer is tested.',
 [PR+'iter.rs'],[('? on the generator result',PR+'iter.rs Action::Reduce'),('ParseError Display/source',PR+'iter.rs')],['events after the failing reducer call','the returned error'])
p('C12','Conflicts are reported exactly when the grammar is not LR(1)',
 'Constructing a parser reports no warning if and only if the grammar is LR(1): for every state and look-ahead at which a shift and a reduction, two reductions, or accepting and a reduction compete, the competing rules are reported, and nothing else is. In particular an ambiguous grammar never builds without a warning.',
 ['programs'],'every grammar in which every used non-terminal has a rule',
 'No test looks at the warnings.',
 [PR+'parser.rs'],[('calc_table warnings',PR+'parser.rs calc_table')],['warnings returned with the parser'])
p('C13','Conflicts are resolved the same way always: shift first, then the earlier rule',
 'For a grammar with conflicts, parsing behaves as the LR(1) automaton in which a shift is preferred to a reduction, of several reductions the rule declared first is taken, and accepting is preferred to reducing. The outcome is the same on every construction.',
 ['programs','inputs','configurations'],'every grammar with conflicts and every input on which that automaton terminates',
 'No test parses with a conflicting grammar; tables are built by iterating randomly seeded hash maps.',
 [PR+'parser.rs'],[('insertion order: shifts, then items by rule',PR+'parser.rs calc_table')],['reducer calls and result'])
p('C14','Error recovery yields a real derivation and loses no token',
 'Input that is derivable without ERROR is parsed as if the ERROR alternatives did not exist. Whenever parsing other input succeeds, the result is a derivation of the grammar with ERROR as a leaf, whose other leaves are input tokens in input order, in which each ERROR receives a contiguous slice of the input in order, and every token is a leaf or inside such a slice.',
 ['inputs','programs'],'every conflict-free grammar with ERROR alternatives, every token sequence',
 'Six inputs of one grammar are tested; recovery that discards recovered or empty constructs, or happens at the end of the input, is not.',
 [PR+'iter.rs'],[('pop to a state with an ERROR item, re-queue tokens',PR+'iter.rs None branch'),('positions of symbols',PR+'iter.rs first_index, error_index')],['reducer calls of the returned tree','slices handed to ERROR'])
p('C15','Recovery resumes at the innermost open ERROR alternative and always ends',
 'At a syntax error the parser discards as little as possible: it falls back to the most recent point of the parse at which an ERROR alternative (one of those already being recovered, if any) can start, at the end of input only to the current point, and skips one token after another from there until parsing can continue. The slice given to ERROR runs from the first discarded token to the token at which the error was last noticed (empty at the end of input); without such a point parsing fails with the no-recovery error, and it always ends.',
 ['inputs','programs'],'every conflict-free grammar with ERROR alternatives, every token sequence',
 'Six inputs of one grammar are tested, none with nested, repeated or adjacent ERROR alternatives.',
 [PR+'iter.rs',PR+'parser.rs'],[('error_recovery_state',PR+'iter.rs'),('error_rules per state',PR+'parser.rs calc_error_rules')],['reducer calls, slices and result, compared with a reference model'])
p('C16','A parser from the parser! macro behaves like one built at run time',
 'For every grammar whose names denote distinct variants, the function generated by the parser macro returns a parser that gives the same result, reducer calls and errors on every input as the parser built at run time from the same rules, whatever the order in which tokens and symbols are listed. A definition that names an undeclared token or symbol does not compile.',
 ['programs','inputs'],'every grammar expressible in the macro, with ERROR, alternatives written with |, empty right-hand sides, named and literal tokens; every input',
 'One grammar with tokens and symbols listed in declaration order and two inputs is tested.',
 ['parser_generator/src/lib.rs'],[('code generation of tables and rules','parser_generator/src/lib.rs parser'),('mapping list positions to variant numbers','parser_generator/src/lib.rs tokens[..], symbols[..]')],['results of generated and run-time parsers side by side','compiler exit status'])
p('C17','A tokenizer from the tokenizer! macro behaves like one built at run time',
 'For every list of patterns, the function generated by the tokenizer macro returns a tokenizer that yields the same tokens from the same constructors on every input as the one built at run time from the same patterns in the same order. A definition with an invalid or unsupported pattern does not compile.',
 ['programs','inputs'],'every supported pattern list, plain and raw string literals, any character type; every input',
 'Two definitions with the same three patterns and three inputs are tested.',
 ['tokenizer_generator/src/lib.rs'],[('code generation of tables','tokenizer_generator/src/lib.rs tokenizer')],['tokens of generated and run-time tokenizers side by side','compiler exit status'])
p('C18','All ways of writing a grammar, and any symbol numbering, give the same parser',
 'Rules written from example values, with the step-by-step builder or with raw numbers, and parsers obtained with or without warnings, behave identically on every input. Renumbering tokens or non-terminals in any one-to-one way, with gaps or large numbers, and reordering the alternatives of a conflict-free grammar changes nothing but rule numbers.',
 ['programs','inputs','configurations'],'every grammar, every injective numbering, every input',
 'One test checks the contents of rules built with one of the routes.',
 [PR+'syntax.rs',PR+'parser.rs'],[('Rule::new/new_raw/builder, Syntax build/build_raw',PR+'syntax.rs'),('fresh start symbol',PR+'parser.rs LR1Parser::new')],['results and reducer calls across routes'])
p('C19','The example calculator computes each line correctly and ends with its input',
 'For each input line the example program prints exactly one line, in order: the value of the arithmetic expression under the usual precedence and left associativity with signs, parentheses and sqrt, ignoring unknown characters, or an error if the line is not an expression. It exits successfully at the end of input and never crashes on text input.',
 ['inputs','histories'],'every sequence of text lines',
 'The example has no tests.',
 ['example/src/main.rs'],[('token patterns and grammar of the calculator','example/src/main.rs main')],['standard output and exit status of the example binary'])
p('C20','Tokenizers and parsers carry no state from one use to another',
 'Using one tokenizer for several token streams, interleaved in any order and abandoned at any point, gives each stream what it would yield alone. Parsing with one parser gives results that depend only on the input, whatever was parsed before, including parses that failed, recovered, were nested inside a reducer, or were ended by a reducer error or panic. Other tokenizers and parsers, alive at the same time or dropped before, and uses started from inside a token constructor, mapping function, token source or reducer change nothing either.',
 ['histories','schedules'],'every history of building, using and dropping tokenizers and parsers, every interleaving of token streams, nested uses, panics in callbacks, instances used in parallel threads',
 'Each test uses a parser or tokenizer for a few inputs in sequence.',
 [TK+'tokenizer.rs',TK+'tokenizer/iter.rs',PR+'iter.rs'],[('all mutable state is local to the stream or the call',TK+'tokenizer/iter.rs TokenizeIterator, '+PR+'iter.rs parse')],['results of each use compared with the same use alone in a fresh process'])
p('C21','Input length and nesting depth are not limited by the call stack',
 'Tokens of a million characters, sequences of hundreds of thousands of tokens and constructs nested as deeply, with or without errors in them, are handled on a small thread stack and give the same kind of result as small ones. (Running time is not claimed: recovery may back up again and again.)',
 ['inputs'],'every input size that fits in memory',
 'The longest tested input has 20 characters and nine tokens.',
 [PR+'iter.rs',TK+'tokenizer/iter.rs'],[('explicit stack and queue',PR+'iter.rs, '+TK+'tokenizer/iter.rs')],['results on very long and deep inputs on a 256 KiB stack'])
p('C22','Public key types keep the equality, ordering and hashing contracts',
 'Character ranges, rules and grammar symbols that compare equal hash equally and are equal in ordering, their ordering is a total order, and a character range hashes, compares and is found in maps like its start. Rules are equal if and only if they have the same left-hand side and the same symbols.',
 ['inputs'],'all pairs and triples of values',
 'Eight equalities and four comparisons of ranges are tested.',
 [TK+'lib.rs',PR+'syntax.rs',PR+'lib.rs'],[('manual PartialEq/Ord/Hash/Borrow',TK+'lib.rs CharRange, '+PR+'syntax.rs Rule')],['results of ==, cmp, hash and map look-ups'])
p('C23','Parser construction is reproducible and its tables are sound',
 'Constructing a parser twice from the same rules, in the same or another process, gives tables identical up to the numbering of states, and the same warnings up to order. Every state in the tables can be reached from the start state and there are no more of them than in the canonical LR(1) automaton; every shift and goto leads to a state with actions, every reduction names a rule of the grammar and finds a goto where it ends, and a state lists ERROR alternatives exactly if it can shift ERROR.',
 ['programs','configurations','histories'],'every grammar in which every used non-terminal has a rule, every hash seed',
 'The tests compare the tables of two grammars, once each; construction iterates randomly seeded hash maps.',
 [PR+'parser.rs'],[('states as ordered item sets, numbered at the end',PR+'parser.rs calc_all_goto, LR1Parser::new'),('tables',PR+'parser.rs calc_table, calc_error_rules')],['public tables of the parser','warnings','repeated constructions'])
p('C24','Parsing is lazy: the source is read one token at a time and only when needed',
 'With every grammar, also with conflicts or ERROR alternatives, a token is pulled from the source only when the parser cannot act on the tokens it has: when a reducer is called, and when parsing returns, nothing has been pulled beyond the first token not yet shifted or skipped, tokens that recovery goes back to are not pulled again, and once the source has ended it is not asked again. So a parser can follow an interactive source.',
 ['inputs','programs'],'every grammar, every token sequence on which parsing ends',
 'No test looks at how much of the source was consumed when a reducer runs.',
 [PR+'iter.rs'],[('pull only into an empty buffer',PR+'iter.rs parse')],['number of tokens pulled at each reducer call and at the end'])
p('C25','The macros accept definitions with conflicts and report them while compiling',
 'Compiling a parser or tokenizer definition for which run-time construction would give warnings succeeds and reports every one of these warnings on the error output of the compiler. Compiling a definition without warnings reports no conflict.',
 ['programs'],'every valid parser or tokenizer definition, several of them in one crate',
 'The tests compile three definitions and do not look at what the compiler prints.',
 ['parser_generator/src/lib.rs','tokenizer_generator/src/lib.rs'],[('warnings printed during expansion','parser_generator/src/lib.rs parser, tokenizer_generator/src/lib.rs tokenizer')],["error output and exit status of the compiler"])
p('C26','Tokenizer and parser compose: text becomes its tree, read only as far as needed',
 'For every pattern list, grammar and text, handing a token stream (with unwanted tokens filtered out and the rest mapped) directly to a parser calls the same reducers with the same tokens, and ends the same way, as cutting the whole text into tokens first and parsing those. When a reducer is called, no character has been read beyond the one that settles the look-ahead token the reduction needs.',
 ['inputs','configurations','programs'],'every pair of a pattern list and a grammar, every text, streams by reference and by value',
 'No test joins a tokenizer and a parser; only the example does.',
 [TK+'tokenizer/iter.rs',PR+'iter.rs'],[('a token stream is an iterator, a parser takes any',TK+'tokenizer/iter.rs Iterator for TokenizeIterator, '+PR+'iter.rs Parse for IntoIterator')],['characters read at each reducer call','tokens and their texts','reducer calls and result'])
p('C27','Parsing releases what it is given: tokens, values, reducers and memory',
 'When parsing returns, whether with a result, a syntax error, a reducer error or a panic of a reducer or the source, every token pulled and every value a reducer returned has been dropped exactly once, and only the result or the reducer error is left. Constructing a grammar and a parser keeps none of the example values, a parser keeps exactly one reducer per rule, and dropping it releases all reducers and all memory.',
 ['inputs','programs','fault_sequences'],'every grammar, input and failing or panicking callback',
 'Tests neither count drops nor make a callback panic.',
 [PR+'iter.rs',PR+'syntax.rs',PR+'parser.rs'],[('tokens and values are owned by locals of the parse',PR+'iter.rs parse'),('rules own their reducers',PR+'syntax.rs Rule')],['drops of instrumented tokens, nodes, errors and reducers','allocator balance'])
p('C28','A token stream needs memory for its look-ahead only, however long the input is',
 'While a text of any length is tokenized and the tokens are dropped as they come, the memory in use is bounded by a multiple of the longest stretch of input that a single token needs to be settled; nothing of the input that was already handed out is kept. So endless sources can be tokenized.',
 ['inputs','configurations'],'every pattern list and every input whose tokens are settled within a bounded stretch',
 'The longest tested input has 20 characters.',
 [TK+'tokenizer/iter.rs'],[('only characters read ahead are queued',TK+'tokenizer/iter.rs TokenizeIterator::queue')],['live bytes at every pull from the source'])
p('C29','Tables are obeyed as they stand in the public fields, whoever made them',
 'The public fields of a tokenizer and of a parser are the whole of it. A tokenizer whose fields hold any deterministic automaton (any state numbers, any disjoint character ranges) cuts its input into the longest stretches that automaton accepts, and passes each to the constructor named in the table. A parser whose fields hold any consistent LR table (conflicts decided otherwise, merged states, default reductions, missing moves, any state numbers and rule order) makes exactly the moves the table prescribes, recovery included. The macros, which emit such tables, rest on this.',
 ['inputs','configurations'],'every deterministic automaton; every LR table whose moves fit its own states; every input on which the table does not send the parser round for ever',
 'All tables in the tests come from the constructors.',
 [TK+'tokenizer.rs',TK+'tokenizer/iter.rs',PR+'iter.rs'],[('public fields',TK+'tokenizer.rs DFATokenizer; '+PR+'parser.rs LR1Parser'),('the tables are all that is consulted',TK+'tokenizer.rs get_next_node, get_accept_index; '+PR+'iter.rs parse')],['tokens yielded','reducer calls, arguments and result'])
p('C30','The work per character, per parser move and per use does not grow',
 'Tokenizing takes time proportional to the characters that must be looked at (for each token those from its start to the one that settles it). Parsing takes time proportional to the shifts, reductions and recovery steps that the table prescribes for the input. What one of them costs does not grow with the length of the input already read, the length of tokens, the depth of nesting, the number of errors or the number of earlier uses of the tokenizer or parser.',
 ['inputs','configurations','histories'],'every pattern list and grammar, every input on which the number of characters looked at or of moves is in proportion to its length',
 'No test measures time; inputs are too short for it to matter.',
 [TK+'tokenizer/iter.rs',TK+'tokenizer.rs',PR+'iter.rs'],[('each token handles the characters of its own stretch only',TK+'tokenizer/iter.rs next'),('each move handles the top of the stack only',PR+'iter.rs parse')],['processor time per unit of work, small against large inputs, early against late uses'])
p('C31','Streams, sources and tokens may be handed over and consumed in any way',
 'A token stream is an ordinary iterator: consumed by next, for, collect, fold, nth, skip, step_by, last, count, peek, by reference or boxed, it yields the same tokens, and size_hint never excludes their number. It does not matter how the source is given (any iterator, by value, by mutable reference or boxed), whether the tokenizer is given by value or by reference, or whether characters are mapped by the identity or not at all. Likewise a parse gives the same reducer calls and result for the same tokens in a vector, another collection, or any iterator by value, boxed or by mutable reference. What was given by mutable reference can be used on behind what was read.',
 ['inputs','configurations'],'every pattern list, text, grammar and token sequence; every way the iterator interfaces offer',
 'The tests use for loops over chars and vectors only.',
 [TK+'tokenizer/iter.rs',TK+'tokenizer.rs',PR+'iter.rs',PR+'parser.rs'],[('the stream implements Iterator by next',TK+'tokenizer/iter.rs TokenizeIterator'),('tokens are taken by IntoIterator',PR+'iter.rs Parse')],['tokens yielded, positions of sources','reducer calls and result'])
p('C32','Building stays feasible: no explosion in the size of the definition',
 'The time to build a tokenizer or a parser grows at most like a low power of the size of the definition (counted repetitions written out) and of the automaton it needs. Nesting, repetition signs (*, +, ?), alternatives, optional and empty parts, chains of symbols, levels of precedence and ERROR alternatives never multiply the cost with every one added, so definitions of realistic size are built in moments.',
 ['inputs','configurations'],'every family of pattern lists and grammars on which the subset construction and the canonical LR(1) construction stay polynomial',
 'Definitions in the tests have a handful of patterns or rules.',
 [TK+'nfa.rs',TK+'dfa.rs',PR+'parser.rs'],[('each part of a pattern is built once, or as often as it is counted',TK+'nfa.rs'),('each state is expanded once',TK+'dfa.rs; '+PR+'parser.rs calc_all_goto'),('sets are computed by iteration to a fixed point',PR+'parser.rs calc_null, calc_first, calc_closure')],['processor time of builds in doubling sizes'])
p('C33','Using the library has no effect outside: nothing is printed, opened or asked for',
 'Building and using tokenizers and parsers at run time acts through return values and the callbacks given to them only, on every path: also when a definition is rejected or has conflicts, when an error is recovered from and when a callback fails. Nothing is written to standard output, standard error or a file, no file, environment variable or network is consulted, and nothing waits. So the outcome depends on the arguments alone. (The macros report conflicts while compiling; that is C25.)',
 ['inputs','programs','fault_sequences'],'every definition and input, valid or not',
 'The test runner captures what is printed and nobody looks at it.',
 [TK+'tokenizer.rs',TK+'nfa.rs',TK+'dfa.rs',TK+'tokenizer/iter.rs',PR+'parser.rs',PR+'iter.rs'],[('warnings and errors are returned, not printed',TK+'tokenizer.rs TokenizerBuilder::build; '+PR+'parser.rs LR1Parser::new')],['calls of the C library that reach outside the process'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
