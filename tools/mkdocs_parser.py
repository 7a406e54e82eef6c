PAR = "abstract interpretation of the parser's MIR, function summaries per calling context, in lockstep with an automaton for the syntactic grammar"
PN = "Covers token sequences of any length and nesting: the exploration of contexts and states is run to a fixpoint, with the tokenizer replaced by any token sequence at all. Trusts rustc's MIR, the MIR importer, the models of the standard library and the grammar in tools/jsa/src/gram.rs. What the run cannot establish, or does not reach within its time limit, is reported as UNDECIDED. Left open (nothing is claimed there): see 'Left open' in DESIGN.md."
PF = ["src/parser/mod.rs", "src/parser/utils.rs", "src/parser/expressions.rs", "src/parser/statements.rs", "src/parser/declarations.rs", "src/parser/functions.rs", "src/parser/classes.rs", "src/parser/module.rs"]
PW = "The tests parse a handful of programs and look only at whether they are accepted; the property quantifies over every sequence of tokens, of any length and nesting."
PO = ["whether parse_root returns normally or fails, for a sequence of tokens"]
LEN = " The language meant is ECMAScript modules of 2017 as far as the parser implements it; whether an expression is a valid assignment target, the shape of arrow parameters and words reserved only in strict code are not part of it."

prop("P01", "Only well-formed programs are accepted", "When parsing returns normally, the tokens of the text, up to its very end, form a module of the language. No unexpected token is skipped over or tolerated in any construct: statements, declarations, expressions, functions, classes, patterns, imports and exports." + LEN,
     "all token sequences of any length and nesting", PW, PF, [{"name": "every use of a token by the parser", "where": "src/parser/*.rs"}, {"name": "normal return", "where": "src/parser/mod.rs parse_root"}], PO, technique=PAR, note=PN)
prop("P02", "Well-formed programs are never refused", "Every text whose tokens form a module of the language is parsed to the end without an error, whatever its length and nesting." + LEN,
     "all token sequences of any length and nesting", PW, PF, [{"name": "every place where the parser gives up", "where": "src/parser/*.rs"}], PO, technique=PAR, note=PN)
prop("P03", "Semicolons are inserted exactly where allowed", "A missing semicolon is tolerated exactly before a line break, a closing brace or the end of the text, or after do-while. A line break is honoured where the language forbids one: after return, throw, break, continue and yield, before a postfix operator and before an arrow. Elsewhere line breaks make no difference.",
     "all token sequences with line breaks anywhere", "Whether a line break matters depends on the construct around it; the tests contain hardly any program without semicolons.", PF, [{"name": "semicolon", "where": "src/parser/utils.rs and its callers"}, {"name": "line terminator tests", "where": "src/parser/mod.rs, statements.rs, expressions.rs"}], PO, technique=PAR, note=PN)
prop("P04", "Functions, classes and objects are read by their rules", "Functions, methods, accessors, arrow functions, classes and object literals are accepted exactly in the forms of the language. Within their parameters and bodies, yield is an operator exactly in generators and await exactly in async functions, as decided by the nearest enclosing function.",
     "all token sequences, all nestings of functions, classes and objects", "A flag that leaks from one function into the next shows only when several are combined.", ["src/parser/functions.rs", "src/parser/classes.rs", "src/parser/expressions.rs", "src/parser/mod.rs"], [{"name": "context flags", "where": "src/parser/mod.rs with, without, push_flags, Drop of ParserProxy"}, {"name": "members and functions", "where": "src/parser/functions.rs, classes.rs, expressions.rs"}], PO, state=[{"name": "flags", "meaning": "which of in, yield, await and return are allowed", "where": "src/parser/mod.rs Parser.flags, flags_stack"}], technique=PAR, note=PN)
prop("P05", "Slash and brace are read by position", "A slash starts a regular expression exactly where the grammar expects an operand and is a division everywhere else; a closing brace resumes a template exactly when it closes one of its substitutions. This holds for every token, whatever was read and looked at before.",
     "all token sequences that contain slashes, regular expressions or templates", "Depends on the hint in force when the token was read ahead, which depends on the whole path to it.", PF, [{"name": "hint passed to the tokenizer", "where": "src/parser/mod.rs expect_expression and callers"}, {"name": "templates", "where": "src/parser/expressions.rs template"}], PO, state=[{"name": "hint", "meaning": "how the next token is to be read", "where": "src/parser/mod.rs Parser.hint"}], technique=PAR, note=PN)
prop("P06", "Declarations, patterns, imports and exports are read by their rules", "Variable declarations, destructuring patterns, binding names, imports and exports are accepted exactly in the forms of the language: initializers where required, names that may be bound, lists with their separators, rest elements only at the end.",
     "all token sequences", PW, ["src/parser/declarations.rs", "src/parser/module.rs", "src/parser/statements.rs", "src/parser/functions.rs"], [{"name": "declarations and patterns", "where": "src/parser/declarations.rs"}, {"name": "imports and exports", "where": "src/parser/module.rs"}], PO, technique=PAR, note=PN)
prop("P07", "Parsing ends in acceptance or a deliberate refusal", "For every text, parsing ends: no recursion or loop goes round without taking a token. It never fails by accident, and once the parser has decided to refuse a text it refuses it: no error is dropped or turned into acceptance.",
     "all token sequences of any length and nesting", "A dropped error or an endless loop needs a particular malformed text in a particular construct.", PF, [{"name": "loops and recursion", "where": "src/parser/*.rs"}, {"name": "error propagation", "where": "src/parser/utils.rs TokenResult, every ? and match on a result"}, {"name": "unwrap, index and arithmetic", "where": "src/parser/*.rs"}], ["termination and manner of failure"], technique=PAR + "; every loop and recursive call is shown to take a token", note=PN)
prop("E01", "Only the text matters", "The tokens, positions and acceptance obtained for a text depend on that text alone: not on earlier or concurrent parses, global or thread-local state, the clock, the environment, addresses or random seeds.",
     "all texts, all sequences and interleavings of parses", "Shared state shows only in a second parse or another thread; each test parses once in its own state.", PF + [SL, TM], [{"name": "everything reachable from parse_root and read_next", "where": "src"}], ["tokens, positions and acceptance"], over=("inputs", "histories", "schedules"), technique="effect analysis over the call graph of the monomorphic MIR", note="Every function of the standard library that is reached is classified by crate and path (tools/jsa/src/effects.rs). The entry point may print and measure time, which it does without influence on the result.")
